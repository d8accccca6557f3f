------------------------------ MODULE Fields ------------------------------
(* What a field definition means.                                           *)
(* ParseField(n, c) is the meaning of field element n in context c: a       *)
(* record [ok, w, f] - accepted or not, number of warnings, resulting field.*)
EXTENDS Base, Units

Res(f) == [ok |-> TRUE, w |-> 0, f |-> f]
Fail(r) == [r EXCEPT !.ok = FALSE]
Warn(r, k) == IF k = 0 THEN r ELSE [r EXCEPT !.w = @ + k]
WarnIf(r, b) == IF b THEN [r EXCEPT !.w = @ + 1] ELSE r
Put(r, k, v) == [r EXCEPT !.f = (k :> v) @@ @]
Need(r, b) == IF b THEN r ELSE [r EXCEPT !.ok = FALSE]
Over(r, seq, Op(_, _)) == FoldLeft(LAMBDA a, e : IF ~a.ok THEN a ELSE Op(a, e), r, seq)

Bad == [ok |-> FALSE]
BadRes == [ok |-> FALSE, w |-> 0, f |-> EmptyMap]

---------------------------------------------------------------------------
(* properties of every field *)
CommonProps == {"name", "displayName", "description", "sinceVersion", "deprecated", "removed", "reuse",
    "semanticType", "pseudo", "fixedValue", "displayReadOnly", "displayHidden", "customizable",
    "failOnInvalid", "forceGen", "valueOverride", "readOverride", "writeOverride", "refreshOverride",
    "lengthOverride", "validOverride", "nameOverride", "copyCodeFrom", "reuseCode", "validateMinLength"}
FieldKinds == {"int", "enum", "set", "float", "bitfield", "bundle", "string", "data", "list", "ref",
    "optional", "variant"}
KindProps ==
    "int" :> {"type", "defaultValue", "units", "scaling", "endian", "length", "bitLength", "serOffset",
        "validRange", "validValue", "validMin", "validMax", "validCheckVersion", "nonUniqueSpecialsAllowed",
        "displayDecimals", "displayOffset", "signExt", "displaySpecials", "defaultValidValue",
        "availableLengthLimit"} @@
    "enum" :> {"type", "defaultValue", "endian", "length", "bitLength", "nonUniqueAllowed",
        "validCheckVersion", "hexAssign", "availableLengthLimit"} @@
    "set" :> {"defaultValue", "type", "endian", "length", "bitLength", "nonUniqueAllowed",
        "validCheckVersion", "reservedValue", "availableLengthLimit"} @@
    "float" :> {"type", "defaultValue", "endian", "validRange", "validFullRange", "validValue", "validMin",
        "validMax", "validCheckVersion", "units", "displayDecimals", "nonUniqueSpecialsAllowed",
        "displaySpecials"} @@
    "bitfield" :> {"endian", "copyValidCondFrom"} @@
    "bundle" :> {"reuseAliases", "copyValidCondFrom"} @@
    "string" :> {"length", "encoding", "zeroTermSuffix", "defaultValue", "defaultValidValue", "validValue"} @@
    "data" :> {"length", "defaultValue", "defaultValidValue", "validValue"} @@
    "list" :> {"count", "elemFixedLength"} @@
    "ref" :> {"field", "bitLength"} @@
    "optional" :> {"defaultMode", "cond", "displayExtModeCtrl", "missingOnReadFail", "missingOnInvalid"} @@
    "variant" :> {"defaultMember", "displayIdxReadOnlyHidden"}
\* properties which may be given as a child element with structure instead
KindPoss ==
    "bitfield" :> {"validCond"} @@ "bundle" :> {"validCond"} @@ "string" :> {"lengthPrefix"} @@
    "data" :> {"lengthPrefix"} @@ "optional" :> {"field"} @@
    "list" :> {"element", "countPrefix", "lengthPrefix", "elemLengthPrefix", "termSuffix"} @@
    [k \in {"int", "enum", "set", "float", "ref", "variant"} |-> {}]
BitKinds == {"int", "enum", "set", "ref"}
\* further child elements a field may have
KindKids ==
    "int" :> {"special"} @@ "enum" :> {"validValue"} @@ "set" :> {"bit"} @@ "float" :> {"special"} @@
    "bitfield" :> BitKinds \cup {"members"} @@
    "bundle" :> FieldKinds \cup {"members", "alias"} @@
    "string" :> {} @@ "data" :> {} @@ "list" :> FieldKinds @@ "ref" :> {} @@
    "optional" :> FieldKinds \cup {"and", "or"} @@
    "variant" :> FieldKinds \cup {"members"}

\* numbering of enumerations shown by the parsed model
SemTypes == "none" :> 0 @@ "version" :> 1 @@ "messageid" :> 2 @@ "length" :> 3
Overrides == "" :> 0 @@ "any" :> 0 @@ "replace" :> 1 @@ "extend" :> 2 @@ "none" :> 3

BlankCommon(k) == [kind |-> k, name |-> "", disp |-> "", desc |-> "", sem |-> 0, since |-> 0, dep |-> NoDep,
    rem |-> FALSE, pseudo |-> FALSE, fixedv |-> FALSE, custom |-> FALSE, foi |-> FALSE, fgen |-> FALSE,
    ovr |-> <<0, 0, 0, 0, 0, 0, 0>>, ccf |-> "", xattr |-> EmptyMap, xelem |-> 0, vml |-> -1,
    xref |-> ""]

---------------------------------------------------------------------------
(* simple property updates *)
SetStr(r, n, prop, key) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, prop) THEN Fail(r)
    ELSE IF ~Has(n, prop) THEN r
    ELSE Put(r, key, P(n, prop).s)
SetBool(r, n, c, prop, key) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, prop) THEN Fail(r)
    ELSE IF ~Has(n, prop) THEN r
    ELSE IF ~PropOk(c, prop) THEN Warn(r, 1)
    ELSE IF ~IsBool(P(n, prop)) THEN Fail(r)
    ELSE Put(r, key, BoolOf(P(n, prop)))
SetOvr(r, n, c, prop, i) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, prop) THEN Fail(r)
    ELSE IF ~Has(n, prop) THEN [r EXCEPT !.f.ovr[i] = 0]
    ELSE IF ~Dsl(c, 4) THEN Warn(r, 1)
    ELSE IF P(n, prop).lo \notin DOMAIN Overrides THEN Fail(r)
    ELSE [r EXCEPT !.f.ovr[i] = Overrides[P(n, prop).lo]]
\* deprecated properties have no effect
Obsolete(r, n, c, prop) == IF r.ok /\ Has(n, prop) /\ PropDeprecated(c, prop) THEN Warn(r, 1) ELSE r
SetEndian(r, n, c) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "endian") THEN Fail(r)
    ELSE IF ~HasV(n, "endian")
         THEN IF "endian" \in DOMAIN r.f THEN r ELSE Put(r, "endian", c.endian)
    ELSE CASE P(n, "endian").lo = "little" -> Put(r, "endian", 0)
           [] P(n, "endian").lo = "big" -> Put(r, "endian", 1)
           [] OTHER -> Fail(r)
SetU(r, n, prop, key) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, prop) THEN Fail(r)
    ELSE IF ~Has(n, prop) THEN r
    ELSE IF P(n, prop).u < 0 THEN Fail(r)
    ELSE Put(r, key, P(n, prop).u)
SetUnits(r, n) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "units") THEN Fail(r)
    ELSE IF ~Has(n, "units") THEN r
    ELSE LET u == UnitsOf(P(n, "units").un) IN IF u < 0 THEN Fail(r) ELSE Put(r, "units", u)

---------------------------------------------------------------------------
(* number types *)
IntTypes == {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "intvar", "uintvar"}
TypeUns(t) == t \in {"uint8", "uint16", "uint32", "uint64", "uintvar"}
TypeBig(t) == t \in {"uint64", "uintvar"}
TypeVar(t) == t \in {"intvar", "uintvar"}
TypeLen(t) == CASE t \in {"int8", "uint8"} -> 1 [] t \in {"int16", "uint16"} -> 2
                [] t \in {"int32", "uint32"} -> 4 [] t \in {"int64", "uint64"} -> 8 [] OTHER -> 10
TypeBits(t) == IF TypeVar(t) THEN 64 ELSE TypeLen(t) * 8
TypeMin(t) == IF TypeUns(t) THEN W0 ELSE WNeg(WPow2(TypeBits(t) - 1))
TypeMax(t) == WSub(WPow2(IF TypeUns(t) THEN TypeBits(t) ELSE TypeBits(t) - 1), W1)
\* number of value bits carried by bl bits on the wire
EffBits(t, bl) == IF TypeVar(t) THEN LET b == (bl \div 8) * 7 IN IF b > 64 THEN 64 ELSE b ELSE bl
BitsMin(t, bl) == IF TypeUns(t) THEN W0 ELSE WNeg(WPow2(EffBits(t, bl) - 1))
BitsMax(t, bl) == WSub(WPow2(IF TypeUns(t) THEN EffBits(t, bl) ELSE EffBits(t, bl) - 1), W1)

SetType(r, n) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "type") THEN Fail(r)
    ELSE IF ~Has(n, "type") THEN Need(r, "type" \in DOMAIN r.f)
    ELSE IF P(n, "type").lo \notin IntTypes THEN Fail(r)
    ELSE IF "type" \notin DOMAIN r.f THEN Put(r, "type", P(n, "type").lo)
    ELSE Need(r, r.f.type = P(n, "type").lo)
\* serialisation length in bytes, len = 0 when not known yet
SetLen(r, n) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "length") THEN Fail(r)
    ELSE IF ~HasV(n, "length") THEN IF r.f.len = 0 THEN Put(r, "len", TypeLen(r.f.type)) ELSE r
    ELSE LET v == P(n, "length").ul IN
         IF ~v.ok \/ v.v = W0 \/ WLt(WN(TypeLen(r.f.type)), v.v) THEN Fail(r)
         ELSE LET l == WToInt(v.v) IN IF r.f.len = 0 \/ r.f.len = l THEN Put(r, "len", l) ELSE Fail(r)
SetBits(r, n, c) ==
    IF ~r.ok THEN r
    ELSE LET mx == r.f.len * 8 IN
         IF ~One(n, "bitLength") THEN Fail(r)
         ELSE IF ~HasV(n, "bitLength") THEN IF r.f.bl = 0 THEN Put(r, "bl", mx) ELSE r
         ELSE IF c.pk # "bitfield" THEN Warn(Put(r, "bl", mx), 1)
         ELSE LET u == P(n, "bitLength").u IN
              IF u <= 0 \/ TypeVar(r.f.type) \/ u > mx THEN Fail(r) ELSE Put(r, "bl", u)

---------------------------------------------------------------------------
(* conversion of an integer to the nearest double *)
HiBit(a) == LET S == { k \in 0..63 : WLe(WPow2(k), a) } IN CHOOSE k \in S : \A j \in S : j <= k
WHalf(a) == LET h == a[1] \div 2
                m == a[2] + (a[1] % 2) * WB
                m2 == m \div 2
                l == a[3] + (m % 2) * WB
            IN <<h, m2, l \div 2>>
RECURSIVE WShr(_, _), WShl(_, _)
WShr(a, k) == IF k = 0 THEN a ELSE WShr(WHalf(a), k - 1)
WShl(a, k) == IF k = 0 THEN a ELSE WShl(WAdd(a, a), k - 1)
DOfPos(a) ==
    LET k == HiBit(a)
        s == k - 52
        q == IF s > 0 THEN WShr(a, s) ELSE WShl(a, -s)
        rem == IF s > 0 THEN WSub(a, WShl(q, s)) ELSE W0
        half == IF s > 0 THEN WPow2(s - 1) ELSE W1
        up == s > 0 /\ (WLt(half, rem) \/ (rem = half /\ q[3] % 2 = 1))
        q2 == IF up THEN WAdd(q, W1) ELSE q
        \* a carry out of the mantissa moves into the exponent by itself
    IN WAdd(WSub(q2, WPow2(52)), WShl(WN(k + 1023), 52))
DOfInt(a) == IF a = W0 THEN W0 ELSE IF WLt(a, W0) THEN WNeg(DOfPos(WNeg(a))) ELSE DOfPos(a)
DInf == WShl(WN(2047), 52)
DIsNan(d) == d = WNan
DIsInf(d) == d = DInf \/ d = WNeg(DInf)
DSpecial(d) == DIsNan(d) \/ DIsInf(d)
DLess(a, b) == IF DIsNan(a) THEN FALSE ELSE IF DIsNan(b) THEN TRUE ELSE WLt(a, b)
DMaxF == WSub(WShl(WN(1151), 52), WPow2(29))      \* largest float, as a double
DMaxD == WSub(DInf, W1)

---------------------------------------------------------------------------
(* values of other fields: the default, or a named special/enumerator/bit;  *)
(* through a bundle or bitfield member, through the field a ref refers to   *)
Ok(v) == [ok |-> TRUE, v |-> v]
MemberNamed(ms, nm) == LET is == { i \in DOMAIN ms : ms[i].name = nm }
                       IN IF is = {} THEN NoRec ELSE ms[CHOOSE i \in is : \A j \in is : i <= j]
HasMembers(f) == f.kind \in {"bundle", "bitfield", "variant"}

RECURSIVE FieldNum(_, _, _), FieldFp(_, _, _), FieldBool(_, _, _), FieldStr(_, _, _), FieldData(_, _, _)
FieldNum(f, rest, c) ==
    CASE f.kind = "int" ->
            IF ~Dsl(c, 2) THEN Bad ELSE IF rest = <<>> THEN Ok(f.def)
            ELSE IF Len(rest) = 1 /\ rest[1] \in DOMAIN f.specials THEN Ok(f.specials[rest[1]].val) ELSE Bad
      [] f.kind = "enum" ->
            IF rest = <<>> THEN (IF Dsl(c, 2) THEN Ok(f.def) ELSE Bad)
            ELSE IF Len(rest) = 1 /\ rest[1] \in DOMAIN f.vals THEN Ok(f.vals[rest[1]].val) ELSE Bad
      [] f.kind = "set" ->
            IF ~Dsl(c, 2) THEN Bad ELSE IF rest = <<>> THEN Ok(WN(B2N(f.defb)))
            ELSE IF Len(rest) = 1 /\ rest[1] \in DOMAIN f.bitsl THEN Ok(WN(B2N(f.bitsl[rest[1]].def))) ELSE Bad
      [] HasMembers(f) ->
            IF rest = <<>> \/ ~Dsl(c, 2) THEN Bad
            ELSE LET m == MemberNamed(f.members, rest[1])
                 IN IF IsNone(m) THEN Bad ELSE FieldNum(m, Tail(rest), c)
      [] f.kind = "ref" -> IF Dsl(c, 2) THEN FieldNum(f.ref, rest, c) ELSE Bad
      [] f.kind = "optional" ->
            IF Dsl(c, 2) /\ rest # <<>> /\ f.field.xref = "" /\ rest[1] = f.field.name
            THEN FieldNum(f.field, Tail(rest), c) ELSE Bad
      [] OTHER -> Bad
FieldFp(f, rest, c) ==
    CASE f.kind = "float" ->
            IF ~Dsl(c, 2) THEN Bad ELSE IF rest = <<>> THEN Ok(f.def)
            ELSE IF Len(rest) = 1 /\ rest[1] \in DOMAIN f.specials THEN Ok(f.specials[rest[1]].val) ELSE Bad
      [] HasMembers(f) ->
            IF rest = <<>> \/ ~Dsl(c, 2) THEN Bad
            ELSE LET m == MemberNamed(f.members, rest[1])
                 IN IF IsNone(m) THEN Bad ELSE FieldFp(m, Tail(rest), c)
      [] f.kind = "ref" -> IF Dsl(c, 2) THEN FieldFp(f.ref, rest, c) ELSE Bad
      [] f.kind = "optional" ->
            IF Dsl(c, 2) /\ rest # <<>> /\ f.field.xref = "" /\ rest[1] = f.field.name
            THEN FieldFp(f.field, Tail(rest), c) ELSE Bad
      [] OTHER -> LET x == FieldNum(f, rest, c) IN IF x.ok THEN Ok(DOfInt(x.v)) ELSE Bad
FieldBool(f, rest, c) ==
    CASE f.kind = "set" ->
            IF ~Dsl(c, 2) THEN Bad ELSE IF rest = <<>> THEN Ok(f.defb)
            ELSE IF Len(rest) = 1 /\ rest[1] \in DOMAIN f.bitsl THEN Ok(f.bitsl[rest[1]].def) ELSE Bad
      [] HasMembers(f) ->
            IF rest = <<>> \/ ~Dsl(c, 2) THEN Bad
            ELSE LET m == MemberNamed(f.members, rest[1])
                 IN IF IsNone(m) THEN Bad ELSE FieldBool(m, Tail(rest), c)
      [] f.kind = "ref" -> IF Dsl(c, 2) THEN FieldBool(f.ref, rest, c) ELSE Bad
      [] f.kind = "optional" ->
            IF Dsl(c, 2) /\ rest # <<>> /\ f.field.xref = "" /\ rest[1] = f.field.name
            THEN FieldBool(f.field, Tail(rest), c) ELSE Bad
      [] OTHER -> Bad
FieldStr(f, rest, c) ==
    CASE f.kind = "string" -> IF Dsl(c, 2) /\ rest = <<>> THEN Ok(f.def) ELSE Bad
      [] HasMembers(f) ->
            IF rest = <<>> \/ ~Dsl(c, 2) THEN Bad
            ELSE LET m == MemberNamed(f.members, rest[1])
                 IN IF IsNone(m) THEN Bad ELSE FieldStr(m, Tail(rest), c)
      [] f.kind = "ref" -> IF Dsl(c, 2) THEN FieldStr(f.ref, rest, c) ELSE Bad
      [] f.kind = "optional" ->
            IF Dsl(c, 2) /\ rest # <<>> /\ f.field.xref = "" /\ rest[1] = f.field.name
            THEN FieldStr(f.field, Tail(rest), c) ELSE Bad
      [] OTHER -> Bad
FieldData(f, rest, c) ==
    CASE f.kind = "data" -> IF Dsl(c, 2) /\ rest = <<>> THEN Ok(f.def) ELSE Bad
      [] HasMembers(f) ->
            IF rest = <<>> \/ ~Dsl(c, 2) THEN Bad
            ELSE LET m == MemberNamed(f.members, rest[1])
                 IN IF IsNone(m) THEN Bad ELSE FieldData(m, Tail(rest), c)
      [] f.kind = "ref" -> IF Dsl(c, 2) THEN FieldData(f.ref, rest, c) ELSE Bad
      [] f.kind = "optional" ->
            IF Dsl(c, 2) /\ rest # <<>> /\ f.field.xref = "" /\ rest[1] = f.field.name
            THEN FieldData(f.field, Tail(rest), c) ELSE Bad
      [] OTHER -> Bad
RefVal(c, v, Get(_, _, _)) ==
    LET x == ValueField(c, v) IN IF IsNone(x) THEN Bad ELSE Get(x.f, x.rest, c)

\* a text property: literal, or ^reference to the value of a string field
StrOf(c, v) == IF v.s = "" \/ ~Dsl(c, 2) THEN Ok(v.s)
               ELSE IF v.x.k = "lit" THEN Ok(v.x.s)
               ELSE RefVal(c, v.x.r, FieldStr)
SetText(r, n, c, prop, key) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, prop) THEN Fail(r)
    ELSE IF ~Has(n, prop) THEN r
    ELSE LET x == StrOf(c, P(n, prop)) IN IF x.ok THEN Put(r, key, x.v) ELSE Fail(r)

\* what number text v stands for in integer field f, nm the names known to f
IntVal(c, type, nm, v) ==
    IF v.nm /\ v.s \in DOMAIN nm THEN Ok(nm[v.s].val)
    ELSE IF v.rf
    THEN LET x == RefVal(c, v, FieldNum) IN
         IF ~x.ok \/ (WLt(x.v, W0) /\ TypeUns(type)) \/ (WLt(WMaxI, x.v) /\ ~TypeBig(type)) THEN Bad ELSE x
    ELSE IF TypeBig(type) THEN v.ul ELSE v.i
EnumVal(c, type, nm, v) == IntVal(c, type, nm, v)
FpVal(c, nm, v, specials) ==
    IF specials /\ v.d.sp THEN v.d
    ELSE IF v.nm /\ v.s \in DOMAIN nm THEN Ok(nm[v.s].val)
    ELSE IF v.rf THEN RefVal(c, v, FieldFp)
    ELSE v.d
BoolVal(c, v) == IF IsBool(v) THEN Ok(BoolOf(v))
                 ELSE IF ~Dsl(c, 2) THEN Bad
                 ELSE RefVal(c, v, FieldBool)

---------------------------------------------------------------------------
(* valid ranges: what is stated last is added to what is inherited *)
Stated(r, n, c, prop, Mk(_)) ==
    \* Mk: value -> [ok, w, a, b]
    LET add(rr, v, since, dep) ==
            LET m == Mk(v) IN
            IF ~m.ok THEN Fail(rr)
            ELSE Warn(Put(rr, "ranges", Append(rr.f.ranges, [min |-> m.a, max |-> m.b, since |-> since, dep |-> dep])), m.w)
        r1 == IF r.ok /\ Attr(n, prop) THEN add(r, P(n, prop), r.f.since, r.f.dep) ELSE r
    IN Over(r1, Kids(n, prop), LAMBDA rr, k :
            LET m == Mk(k.v) IN
            IF ~m.ok THEN Fail(rr)
            ELSE LET vs == Vers(c, k, rr.f.since, rr.f.dep) IN
                 IF ~vs.ok THEN Fail(rr) ELSE add(rr, k.v, vs.since, vs.dep))
VerLess(x, y, Lt(_, _)) ==
    IF x.since # y.since THEN x.since < y.since
    ELSE IF x.dep # y.dep THEN x.dep < y.dep
    ELSE IF x.min # y.min THEN Lt(x.min, y.min)
    ELSE Lt(x.max, y.max)
ValLess(x, y, Lt(_, _)) ==
    IF x.min # y.min THEN Lt(x.min, y.min)
    ELSE IF x.max # y.max THEN Lt(x.max, y.max)
    ELSE IF x.since # y.since THEN x.since < y.since
    ELSE x.dep < y.dep
MergeRanges(rs, Lt(_, _), Joins(_, _), Mx(_, _)) ==
    IF Len(rs) < 2 THEN rs
    ELSE LET bv == SortSeq(rs, LAMBDA x, y : VerLess(x, y, Lt))
             join(acc, x) ==
                IF acc = <<>> THEN <<x>>
                ELSE LET l == Last(acc) IN
                     IF l.since = x.since /\ l.dep = x.dep /\ Joins(l, x)
                     THEN Front(acc) \o <<[l EXCEPT !.max = Mx(l.max, x.max)]>>
                     ELSE Append(acc, x)
         IN SortSeq(FoldLeft(join, <<>>, bv), LAMBDA x, y : ValLess(x, y, Lt))

---------------------------------------------------------------------------
(* named values: specials, enumerators *)
NamedProps == {"name", "val", "sinceVersion", "deprecated", "description", "displayName"}
NamedOk(k, names) == PropKids(k, names) /\ \A p \in names : One(k, p)

---------------------------------------------------------------------------
(* <int> *)
IntInit == [len |-> 0, bl |-> 0, serOff |-> W0, def |-> W0, scn |-> W0, scd |-> W0, ranges |-> <<>>,
    specials |-> EmptyMap, units |-> 0, vcv |-> FALSE, dd |-> 0, doff |-> W0, sext |-> TRUE, all |-> FALSE]
IntScaling(r, n) ==
    IF ~r.ok THEN r
    ELSE LET one(x) == IF x = W0 THEN W1 ELSE x IN
    IF ~One(n, "scaling") THEN Fail(r)
    ELSE IF ~HasV(n, "scaling") THEN Put(Put(r, "scn", one(r.f.scn)), "scd", one(r.f.scd))
    ELSE LET sc == P(n, "scaling").sc IN
         IF Len(sc) > 2 \/ \E i \in DOMAIN sc : sc[i].s = "" \/ ~sc[i].i.ok \/ sc[i].i.v = W0 THEN Fail(r)
         ELSE Put(Put(r, "scn", sc[1].i.v), "scd", IF Len(sc) = 2 THEN sc[2].i.v ELSE W1)
IntSerOff(r, n) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "serOffset") THEN Fail(r)
    ELSE IF ~HasV(n, "serOffset") THEN r
    ELSE IF ~P(n, "serOffset").i.ok THEN Fail(r)
    ELSE Put(r, "serOff", P(n, "serOffset").i.v)
\* the values that the wire bits can carry, shifted by the serialisation offset
IntMinMax(r) ==
    IF ~r.ok THEN r
    ELSE LET t == r.f.type
             o == r.f.serOff
             mn == BitsMin(t, r.f.bl)
             mx == BitsMax(t, r.f.bl)
             keep(x) == IF TypeBig(t) THEN WWrapU(x) ELSE WWrapI(x)
             lo == IF TypeUns(t) THEN W0 ELSE WMinI
             hi == IF TypeUns(t) THEN WMaxU ELSE WMaxI
             bounded == ~TypeBig(t) /\ TypeMax(t) # WMaxI
         IN IF o = W0 THEN Put(Put(r, "min", mn), "max", mx)
            ELSE IF bounded /\ ~WLt(WAbs(o), WSub(TypeMax(t), TypeMin(t))) THEN Fail(r)
            ELSE LET mn2 == IF WLt(o, W0) \/ WLt(WAdd(lo, o), mn) THEN WSub(mn, o) ELSE mn
                     mx2 == IF WLt(W0, o) \/ WLt(mx, WAdd(hi, o)) THEN WSub(mx, o) ELSE mx
                 IN Put(Put(r, "min", keep(mn2)), "max", keep(mx2))
InType(f, v) == WLe(TypeMin(f.type), v) /\ WLe(v, TypeMax(f.type))
InWire(f, v) == WLe(f.min, v) /\ WLe(v, f.max)
IntSpecial(r, k, c) ==
    IF ~NamedOk(k, NamedProps) \/ ~Has(k, "name") \/ ~Has(k, "val") THEN Fail(r)
    ELSE LET nm == P(k, "name")
             x == IntVal(c, r.f.type, r.f.specials, P(k, "val"))
             vs == Vers(c, k, r.f.since, r.f.dep)
         IN IF ~nm.nm \/ nm.s \in DOMAIN r.f.specials \/ ~x.ok THEN Fail(r)
            ELSE IF ~r.f.nusa /\ \E s \in DOMAIN r.f.specials : r.f.specials[s].val = x.v THEN Fail(r)
            ELSE IF ~InType(r.f, x.v) \/ ~vs.ok THEN Fail(r)
            ELSE WarnIf([r EXCEPT !.f.specials = (nm.s :> [val |-> x.v, since |-> vs.since, dep |-> vs.dep,
                            desc |-> IF Has(k, "description") THEN P(k, "description").s ELSE "",
                            disp |-> IF Has(k, "displayName") THEN P(k, "displayName").s ELSE ""]) @@ @],
                        ~InWire(r.f, x.v))
IntDefault(r, c, v) ==
    LET x == IntVal(c, r.f.type, r.f.specials, v) IN
    IF ~x.ok \/ ~InType(r.f, x.v) THEN Fail(r) ELSE WarnIf(Put(r, "def", x.v), ~InWire(r.f, x.v))
IntDefValue(r, n, c) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "defaultValue") THEN Fail(r)
    ELSE IF ~HasV(n, "defaultValue") THEN r
    ELSE IntDefault(r, c, P(n, "defaultValue"))
IntDefValidValue(r, n, c) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "defaultValidValue") THEN Fail(r)
    ELSE IF ~Has(n, "defaultValidValue") THEN r
    ELSE IF ~PropOk(c, "defaultValidValue") THEN Warn(r, 1)
    ELSE LET r1 == IntDefault(r, c, P(n, "defaultValidValue")) IN
         IF ~r1.ok THEN r1
         ELSE Put(r1, "ranges", Append(r1.f.ranges, [min |-> r1.f.def, max |-> r1.f.def,
                                                     since |-> r1.f.since, dep |-> r1.f.dep]))
IntRanges(r, n, c) ==
    IF ~r.ok THEN r
    ELSE LET f == r.f
             val(v) == IntVal(c, f.type, f.specials, v)
             out(x) == B2N(~InType(f, x))
             rng(v) == IF ~v.rng.ok THEN Bad
                       ELSE LET a == val(v.rng.a)
                                b == val(v.rng.b)
                            IN IF ~a.ok \/ ~b.ok \/ WLt(b.v, a.v) THEN Bad
                               ELSE [ok |-> TRUE, a |-> a.v, b |-> b.v, w |-> out(a.v) + out(b.v)]
             one(v) == LET a == val(v) IN IF ~a.ok THEN Bad ELSE [ok |-> TRUE, a |-> a.v, b |-> a.v, w |-> out(a.v)]
             lo(v) == LET a == val(v) IN IF ~a.ok THEN Bad ELSE [ok |-> TRUE, a |-> a.v, b |-> f.max, w |-> out(a.v)]
             hi(v) == LET a == val(v) IN IF ~a.ok THEN Bad ELSE [ok |-> TRUE, a |-> f.min, b |-> a.v, w |-> out(a.v)]
             r1 == Stated(r, n, c, "validRange", rng)
             r2 == Stated(r1, n, c, "validValue", one)
             r3 == Stated(r2, n, c, "validMin", lo)
             r4 == Stated(r3, n, c, "validMax", hi)
             joins(l, x) == ~WLt(WAdd(l.max, W1), x.min)      \* overlapping or adjacent
         IN IF ~r4.ok THEN r4 ELSE Put(r4, "ranges", MergeRanges(r4.f.ranges, WLt, joins, WMax))
IntOffset(r, n) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "displayOffset") THEN Fail(r)
    ELSE IF ~Has(n, "displayOffset") THEN r
    ELSE IF ~P(n, "displayOffset").i.ok THEN Fail(r)
    ELSE Put(r, "doff", P(n, "displayOffset").i.v)
IntSignExt(r, n, c) ==
    LET r1 == SetBool(r, n, c, "signExt", "sext") IN
    IF ~r1.ok \/ ~HasV(n, "signExt") THEN r1
    ELSE LET wire == IF c.pk = "bitfield" THEN r1.f.bl ELSE (IF TypeVar(r1.f.type) THEN 8 ELSE r1.f.len * 8)
         IN WarnIf(r1, TypeUns(r1.f.type) \/ TypeLen(r1.f.type) * 8 <= wire)
ParseInt(r, n, c) ==
    LET r1 == SetBits(SetLen(SetEndian(SetType(r, n), n, c), n), n, c)
        r2 == IntMinMax(IntSerOff(IntScaling(r1, n), n))
        r3 == SetBool(r2, n, c, "nonUniqueSpecialsAllowed", "nusa")
        r4 == Over(r3, IF r3.ok THEN Kids(n, "special") ELSE <<>>, LAMBDA a, k : IntSpecial(a, k, c))
        r5 == IntDefValidValue(IntDefValue(r4, n, c), n, c)
        r6 == IntRanges(SetBool(r5, n, c, "validCheckVersion", "vcv"), n, c)
        r7 == IntOffset(SetU(SetUnits(r6, n), n, "displayDecimals", "dd"), n)
        r8 == Obsolete(IntSignExt(r7, n, c), n, c, "displaySpecials")
    IN SetBool(r8, n, c, "availableLengthLimit", "all")

---------------------------------------------------------------------------
(* <enum> *)
EnumInit == [len |-> 0, bl |-> 0, def |-> W0, vals |-> EmptyMap, rev |-> <<>>, nua |-> FALSE, vcv |-> FALSE,
    hex |-> FALSE, all |-> FALSE]
TextOf(c, k, prop) == IF Has(k, prop) THEN StrOf(c, P(k, prop)) ELSE Ok("")
EnumValue(r, k, c) ==
    IF ~NamedOk(k, NamedProps) \/ ~Has(k, "name") \/ ~Has(k, "val") THEN Fail(r)
    ELSE LET nm == P(k, "name")
             x == IntVal(c, r.f.type, r.f.vals, P(k, "val"))
             vs == Vers(c, k, r.f.since, r.f.dep)
             d == TextOf(c, k, "displayName")
         IN IF ~nm.nm \/ nm.s \in DOMAIN r.f.vals \/ ~x.ok THEN Fail(r)
            ELSE IF ~InType(r.f, x.v) THEN Fail(r)
            ELSE IF ~r.f.nua /\ \E s \in DOMAIN r.f.vals : r.f.vals[s].val = x.v THEN Fail(r)
            ELSE IF ~vs.ok \/ ~d.ok THEN Fail(r)
            ELSE Warn([r EXCEPT !.f.vals = (nm.s :> [val |-> x.v, since |-> vs.since, dep |-> vs.dep,
                                    desc |-> IF Has(k, "description") THEN P(k, "description").s ELSE "",
                                    disp |-> d.v]) @@ @,
                                !.f.rev = LET at == Cardinality({ i \in DOMAIN @ : WLe(@[i].val, x.v) })
                                          IN SubSeq(@, 1, at) \o <<[name |-> nm.s, val |-> x.v]>>
                                             \o SubSeq(@, at + 1, Len(@))],
                      B2N(~InWire(r.f, x.v)) + XWarn(c, k, NamedProps, NamedProps))
EnumDefault(r, n, c) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "defaultValue") THEN Fail(r)
    ELSE IF ~HasV(n, "defaultValue") THEN r
    ELSE LET x == IntVal(c, r.f.type, r.f.vals, P(n, "defaultValue")) IN
         IF ~x.ok \/ ~InType(r.f, x.v) THEN Fail(r) ELSE WarnIf(Put(r, "def", x.v), ~InWire(r.f, x.v))
ParseEnum(r, n, c) ==
    LET r1 == SetBits(SetLen(SetEndian(SetType(r, n), n, c), n), n, c)
        r2 == SetBool(SetBool(r1, n, c, "nonUniqueAllowed", "nua"), n, c, "validCheckVersion", "vcv")
        r3 == IF ~r2.ok THEN r2 ELSE Put(Put(r2, "min", BitsMin(r2.f.type, r2.f.bl)), "max", BitsMax(r2.f.type, r2.f.bl))
        ks == Kids(n, "validValue")
        r4 == IF ~r3.ok THEN r3
              ELSE IF ks = <<>> THEN Need(r3, DOMAIN r3.f.vals # {})
              ELSE Over(r3, ks, LAMBDA a, k : EnumValue(a, k, c))
        r5 == SetBool(EnumDefault(r4, n, c), n, c, "hexAssign", "hex")
        r6 == IF r5.ok /\ HasV(n, "hexAssign") THEN Need(r5, TypeUns(r5.f.type)) ELSE r5
    IN SetBool(r6, n, c, "availableLengthLimit", "all")

---------------------------------------------------------------------------
(* <set> *)
SetInit == [len |-> 0, bl |-> 0, defb |-> FALSE, resb |-> FALSE, bitsl |-> EmptyMap, nua |-> FALSE,
    vcv |-> FALSE, all |-> FALSE]
SetSType(r, n) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "type") THEN Fail(r)
    ELSE IF ~Has(n, "type") THEN r
    ELSE LET t == P(n, "type").lo IN
         IF t \notin IntTypes \/ ~TypeUns(t) THEN Fail(r)
         ELSE IF "type" \in DOMAIN r.f THEN Need(r, r.f.type = t) ELSE Put(r, "type", t)
SetSLen(r, n, c) ==
    IF ~r.ok THEN r
    ELSE LET f == r.f
             typed == "type" \in DOMAIN f
             inBits == c.pk = "bitfield"
             mx == IF typed THEN TypeLen(f.type) ELSE 8
             r1 == IF ~One(n, "length") \/ (~typed /\ f.len = 0 /\ ~inBits /\ ~HasV(n, "length")) THEN Fail(r)
                   ELSE IF ~HasV(n, "length") THEN IF f.len = 0 /\ typed THEN Put(r, "len", mx) ELSE r
                   ELSE LET v == P(n, "length").ul IN
                        IF ~v.ok \/ v.v = W0 \/ WLt(WN(mx), v.v) THEN Fail(r)
                        ELSE IF f.len = 0 \/ f.len = WToInt(v.v) THEN Put(r, "len", WToInt(v.v)) ELSE Fail(r)
             r2 == IF ~r1.ok THEN r1
                   ELSE IF ~One(n, "bitLength") \/ (inBits /\ r1.f.bl = 0 /\ r1.f.len = 0 /\ ~HasV(n, "bitLength")) THEN Fail(r1)
                   ELSE IF ~HasV(n, "bitLength") THEN IF r1.f.bl = 0 THEN Put(r1, "bl", r1.f.len * 8) ELSE r1
                   ELSE IF ~inBits THEN Warn(Put(r1, "bl", r1.f.len * 8), 1)
                   ELSE LET v == P(n, "bitLength").ul IN
                        IF ~v.ok \/ v.v = W0 THEN Fail(r1)
                        ELSE IF WLt(WN(IF r1.f.len # 0 THEN r1.f.len * 8 ELSE 64), v.v) THEN Fail(r1)
                        ELSE Put(r1, "bl", WToInt(v.v))
             r3 == IF ~r2.ok THEN r2
                   ELSE IF r2.f.len = 0 THEN Put(r2, "len", ((r2.f.bl - 1) \div 8) + 1) ELSE r2
         IN IF ~r3.ok \/ "type" \in DOMAIN r3.f THEN r3
            ELSE Put(r3, "type", CASE r3.f.len = 1 -> "uint8" [] r3.f.len = 2 -> "uint16"
                                   [] r3.f.len \in {3, 4} -> "uint32" [] OTHER -> "uint64")
SetUnique(f) == \A a, b \in DOMAIN f.bitsl : a # b => f.bitsl[a].idx # f.bitsl[b].idx
SetNua(r, n) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "nonUniqueAllowed") THEN Fail(r)
    ELSE IF ~Has(n, "nonUniqueAllowed") THEN r
    ELSE IF ~IsBool(P(n, "nonUniqueAllowed")) THEN Fail(r)
    ELSE LET b == BoolOf(P(n, "nonUniqueAllowed")) IN
         IF r.f.nua /\ ~b /\ ~SetUnique(r.f) THEN Fail(r) ELSE Put(r, "nua", b)
SetBitDef(r, n, c, prop, key) ==
    IF ~r.ok \/ ~Has(n, prop) THEN r
    ELSE LET x == BoolVal(c, P(n, prop)) IN IF x.ok THEN Put(r, key, x.v) ELSE Fail(r)
BitProps == {"name", "idx", "defaultValue", "reservedValue", "reserved", "sinceVersion", "deprecated",
    "description", "displayName"}
SetBit(r, k, c) ==
    IF ~NamedOk(k, BitProps) \/ ~Has(k, "name") \/ ~Has(k, "idx") THEN Fail(r)
    ELSE LET nm == P(k, "name")
             idx == P(k, "idx").u
             bool(prop, dflt) == IF HasV(k, prop) THEN BoolVal(c, P(k, prop)) ELSE Ok(dflt)
             d == bool("defaultValue", r.f.defb)
             rs == bool("reserved", FALSE)
             rv == bool("reservedValue", r.f.resb)
             vs == Vers(c, k, r.f.since, r.f.dep)
             dn == TextOf(c, k, "displayName")
             same == { b \in DOMAIN r.f.bitsl : r.f.bitsl[b].idx = idx }
             meets(b) == vs.since < r.f.bitsl[b].dep /\ r.f.bitsl[b].since < vs.dep
             agrees(b) == r.f.bitsl[b].def = d.v /\ r.f.bitsl[b].res = rs.v /\ r.f.bitsl[b].resv = rv.v
         IN IF ~nm.nm \/ nm.s \in DOMAIN r.f.bitsl \/ idx < 0 \/ idx >= r.f.bl THEN Fail(r)
            ELSE IF ~r.f.nua /\ same # {} THEN Fail(r)
            ELSE IF ~d.ok \/ ~rs.ok \/ ~rv.ok \/ ~vs.ok THEN Fail(r)
            ELSE IF rs.v /\ (r.f.since < vs.since \/ vs.dep < r.f.dep) THEN Fail(r)
            ELSE IF \E b \in same : meets(b) /\ ~agrees(b) THEN Fail(r)
            ELSE IF ~dn.ok THEN Fail(r)
            ELSE Warn([r EXCEPT !.f.bitsl = (nm.s :> [idx |-> idx, since |-> vs.since, dep |-> vs.dep, def |-> d.v,
                                    res |-> rs.v, resv |-> rv.v,
                                    desc |-> IF Has(k, "description") THEN P(k, "description").s ELSE "",
                                    disp |-> dn.v]) @@ @],
                      XWarn(c, k, BitProps, BitProps))
ParseSet(r, n, c) ==
    LET r1 == SetSLen(SetSType(SetEndian(r, n, c), n), n, c)
        r2 == SetBool(SetNua(r1, n), n, c, "validCheckVersion", "vcv")
        r3 == SetBitDef(SetBitDef(r2, n, c, "defaultValue", "defb"), n, c, "reservedValue", "resb")
        r4 == SetBool(r3, n, c, "availableLengthLimit", "all")
    IN Over(r4, IF r4.ok THEN Kids(n, "bit") ELSE <<>>, LAMBDA a, k : SetBit(a, k, c))

---------------------------------------------------------------------------
(* <float> *)
FloatInit == [def |-> W0, ranges |-> <<>>, specials |-> EmptyMap, units |-> 0, vcv |-> FALSE, dd |-> 0]
FloatType(r, n) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "type") THEN Fail(r)
    ELSE IF ~Has(n, "type") THEN Need(r, "type" \in DOMAIN r.f)
    ELSE LET t == P(n, "type").lo IN
         IF t \notin {"float", "double"} THEN Fail(r)
         ELSE IF "type" \in DOMAIN r.f THEN Need(r, r.f.type = t) ELSE Put(r, "type", t)
FMax(f) == IF f.type = "float" THEN DMaxF ELSE DMaxD
FInType(f, d) == DSpecial(d) \/ (WLe(WNeg(FMax(f)), d) /\ WLe(d, FMax(f)))
FloatSpecial(r, k, c) ==
    IF ~NamedOk(k, NamedProps) \/ ~Has(k, "name") \/ ~Has(k, "val") THEN Fail(r)
    ELSE LET nm == P(k, "name")
             x == FpVal(c, r.f.specials, P(k, "val"), TRUE)
             vs == Vers(c, k, r.f.since, r.f.dep)
         IN IF ~nm.nm \/ nm.s \in DOMAIN r.f.specials \/ ~x.ok THEN Fail(r)
            ELSE IF ~r.f.nusa /\ \E s \in DOMAIN r.f.specials : r.f.specials[s].val = x.v THEN Fail(r)
            ELSE IF ~FInType(r.f, x.v) \/ ~vs.ok THEN Fail(r)
            ELSE [r EXCEPT !.f.specials = (nm.s :> [val |-> x.v, since |-> vs.since, dep |-> vs.dep,
                            desc |-> IF Has(k, "description") THEN P(k, "description").s ELSE "",
                            disp |-> IF Has(k, "displayName") THEN P(k, "displayName").s ELSE ""]) @@ @]
FloatDefault(r, n, c) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "defaultValue") THEN Fail(r)
    ELSE IF ~HasV(n, "defaultValue") THEN r
    ELSE LET x == FpVal(c, r.f.specials, P(n, "defaultValue"), TRUE) IN
         IF ~x.ok \/ ~FInType(r.f, x.v) THEN Fail(r) ELSE Put(r, "def", x.v)
FloatRanges(r, n, c) ==
    IF ~r.ok THEN r
    ELSE LET f == r.f
             mk(a, b) == [ok |-> TRUE, a |-> a, b |-> b, w |-> 0]
             val(v, sp) == LET x == FpVal(c, f.specials, v, sp) IN IF x.ok /\ FInType(f, x.v) THEN x ELSE Bad
             rng(v) == IF ~v.rng.ok THEN Bad
                       ELSE LET a == FpVal(c, f.specials, v.rng.a, FALSE)
                                b == FpVal(c, f.specials, v.rng.b, FALSE)
                            IN IF ~a.ok \/ ~b.ok \/ (~DIsNan(a.v) /\ ~DIsNan(b.v) /\ WLt(b.v, a.v)) THEN Bad
                               ELSE mk(a.v, b.v)
             one(v) == LET a == val(v, TRUE) IN IF ~a.ok THEN Bad ELSE mk(a.v, a.v)
             lo(v) == LET a == val(v, FALSE) IN IF ~a.ok THEN Bad ELSE mk(a.v, FMax(f))
             hi(v) == LET a == val(v, FALSE) IN IF ~a.ok THEN Bad ELSE mk(WNeg(FMax(f)), a.v)
             full(rr, v, since, dep) ==
                IF ~rr.ok \/ ~IsBool(v) THEN Fail(rr)
                ELSE IF ~BoolOf(v) THEN rr
                ELSE Put(rr, "ranges", Append(rr.f.ranges, [min |-> WNeg(FMax(f)), max |-> FMax(f), since |-> since, dep |-> dep]))
             ra == IF Attr(n, "validFullRange") THEN full(r, P(n, "validFullRange"), f.since, f.dep) ELSE r
             r0 == Over(ra, Kids(n, "validFullRange"), LAMBDA rr, k :
                        IF ~IsBool(k.v) THEN Fail(rr)
                        ELSE IF ~BoolOf(k.v) THEN rr
                        ELSE LET vs == Vers(c, k, f.since, f.dep) IN
                             IF ~vs.ok THEN Fail(rr) ELSE full(rr, k.v, vs.since, vs.dep))
             r1 == Stated(Need(r0, One(n, "validFullRange")), n, c, "validRange", rng)
             r2 == Stated(r1, n, c, "validValue", one)
             r3 == Stated(r2, n, c, "validMin", lo)
             r4 == Stated(r3, n, c, "validMax", hi)
             joins(l, x) == ~DSpecial(l.max) /\ ~DSpecial(x.min) /\ ~DLess(l.max, x.min)
             mx(a, b) == IF DLess(a, b) THEN b ELSE a
         IN IF ~r4.ok THEN r4 ELSE Put(r4, "ranges", MergeRanges(r4.f.ranges, DLess, joins, mx))
ParseFloat(r, n, c) ==
    LET r1 == SetEndian(FloatType(r, n), n, c)
        r2 == SetBool(r1, n, c, "nonUniqueSpecialsAllowed", "nusa")
        r3 == Over(r2, IF r2.ok THEN Kids(n, "special") ELSE <<>>, LAMBDA a, k : FloatSpecial(a, k, c))
        r4 == FloatRanges(SetBool(FloatDefault(r3, n, c), n, c, "validCheckVersion", "vcv"), n, c)
        r5 == SetU(SetUnits(r4, n), n, "displayDecimals", "dd")
    IN Obsolete(r5, n, c, "displaySpecials")
FloatNus(f) == f.nusa /\ \E a, b \in DOMAIN f.specials : a # b /\ f.specials[a].val = f.specials[b].val

---------------------------------------------------------------------------
(* references to fields from conditions and detached prefixes               *)
(* [k, f]: k is "none", "field", "value" (special/enumerator/bit), "size"   *)
(* or "exists"                                                              *)
NoRef == [k |-> "none", f |-> NoRec]
RECURSIVE UsableAs(_, _)
UsableAs(f, k) ==
    CASE k = "field" -> TRUE
      [] k = "exists" /\ (f.since > 0 \/ f.dep < NoDep) -> TRUE
      [] f.kind = "ref" -> UsableAs(f.ref, k)
      [] k = "size" -> f.kind \in {"string", "data", "list"}
      [] k = "exists" -> f.kind = "optional"
      [] OTHER -> FALSE
RECURSIVE SibRef(_, _)
RECURSIVE InnerRef(_, _)
InnerRef(f, path) ==
    IF path = <<>> \/ path = <<"">> THEN [k |-> "field", f |-> f]
    ELSE IF HasMembers(f) THEN SibRef(f.members, path)
    ELSE LET names == CASE f.kind \in {"int", "float"} -> DOMAIN f.specials
                        [] f.kind = "enum" -> DOMAIN f.vals
                        [] f.kind = "set" -> DOMAIN f.bitsl
                        [] OTHER -> {}
         IN CASE f.kind = "ref" -> InnerRef(f.ref, path)
              [] f.kind = "optional" ->
                    IF f.field.xref = "" /\ path[1] = f.field.name THEN InnerRef(f.field, Tail(path)) ELSE NoRef
              [] OTHER -> IF Len(path) = 1 /\ path[1] \in names THEN [k |-> "value", f |-> f] ELSE NoRef
SibRef(ms, path) ==
    LET h == SubSeq(path[1], 1, 1) IN
    IF path[1] # "" /\ h \in {"#", "?"}
    THEN LET x == SibRef(ms, <<SubSeq(path[1], 2, Len(path[1]))>> \o Tail(path))
             k == IF h = "#" THEN "size" ELSE "exists"
         IN IF x.k # "field" \/ ~UsableAs(x.f, k) THEN NoRef ELSE [k |-> k, f |-> x.f]
    ELSE IF path[1] = "" THEN NoRef
    ELSE LET m == MemberNamed(ms, path[1]) IN IF IsNone(m) THEN NoRef ELSE InnerRef(m, Tail(path))
\* the same path in every interface of the schema
RECURSIVE NsIfaces(_)
NsIfaces(ns) == { ns.ifaces[i] : i \in DOMAIN ns.ifaces }
                \cup UNION { NsIfaces(ns.nss[x]) : x \in DOMAIN ns.nss }
IfaceRefs(c, path) ==
    LET s == c.st.schemas[c.st.cur]
        ifs == UNION { NsIfaces(s.nss[x]) : x \in DOMAIN s.nss }
    IN { x \in { SibRef(i.fields, path) : i \in ifs } : x.k # "none" }

\* what a field may be compared to
RECURSIVE CmpVal(_, _, _), CmpField(_, _)
CmpVal(c, f, v) ==
    IF f.sem \in {SemTypes["version"], SemTypes["length"]} THEN v.i.ok
    ELSE CASE f.kind = "int" -> IntVal(c, f.type, f.specials, v).ok
           [] f.kind = "enum" -> IntVal(c, f.type, f.vals, v).ok
           [] f.kind = "set" -> IF v.rf THEN LET x == RefVal(c, v, FieldNum) IN x.ok /\ ~WLt(x.v, W0)
                                ELSE v.i.ok /\ ~WLt(v.i.v, W0)
           [] f.kind = "float" -> FpVal(c, f.specials, v, TRUE).ok
           [] f.kind = "string" -> v.x.k = "lit" \/ (LET g == FindField(c, v.x.r) IN ~IsNone(g) /\ g.kind = "string")
           [] f.kind = "ref" -> CmpVal(c, f.ref, v)
           [] OTHER -> FALSE
CmpField(f, g) ==
    IF g.kind = "ref" THEN CmpField(f, g.ref)
    ELSE IF f.kind = g.kind THEN TRUE
    ELSE CASE f.kind = "int" -> g.kind = "enum"
           [] f.kind = "enum" -> g.kind = "int"
           [] f.kind = "ref" -> CmpField(f.ref, g)
           [] OTHER -> FALSE

---------------------------------------------------------------------------
(* conditions *)
\* the text of one condition; references to interface fields exist since DSL version 6
CondText(c, v) == v.s # "" /\ v.cd.ok
                  /\ ((IF v.cd.op \in {"", "!"} THEN v.cd.r.pre ELSE v.cd.l.pre) = "%" => Dsl(c, 6))
CondTree(v) == [t |-> "expr", cd |-> v.cd]
RECURSIVE CondList(_, _, _)
\* and/or element n whose leaves are elements called leaf
CondList(c, n, leaf) ==
    LET one(k) == CASE k.t = leaf -> IF k.vs = 1 /\ CondText(c, k.v) THEN Ok(CondTree(k.v)) ELSE Bad
                    [] k.t \in {"and", "or"} -> CondList(c, k, leaf)
                    [] OTHER -> Bad
        xs == [i \in DOMAIN n.c |-> one(n.c[i])]
    IN IF Len(xs) < 2 \/ \E i \in DOMAIN xs : ~xs[i].ok THEN Bad
       ELSE Ok([t |-> n.t, c |-> [i \in DOMAIN xs |-> xs[i].v]])
RECURSIVE CondUsesIface(_)
CondUsesIface(t) == IF t.t = "expr" THEN t.cd.l.pre = "%" \/ t.cd.r.pre = "%"
                    ELSE \E i \in DOMAIN t.c : CondUsesIface(t.c[i])
\* every operand exists among the siblings and fits its role
RECURSIVE CondOk(_, _, _)
CondOk(c, t, sibs) ==
    IF t.t # "expr" THEN \A i \in DOMAIN t.c : CondOk(c, t.c[i], sibs)
    ELSE LET l == t.cd.l
             r == t.cd.r
             fieldsOf(xs) == { x \in xs : x.k = "field" }
             sizeOk == Dsl(c, 6) /\ r.sz
             right(fs) ==       \* some field of fs can be compared to the right side
                CASE r.pre = "$" -> LET x == SibRef(sibs, r.path) IN x.k = "field" /\ \E f \in fs : CmpField(f.f, x.f)
                  [] r.pre = "%" -> \E x \in fieldsOf(IfaceRefs(c, r.path)) : \E f \in fs : CmpField(f.f, x.f)
                  [] OTHER -> \E f \in fs : CmpVal(c, f.f, r)
         IN IF t.cd.op \in {"", "!"}
            THEN IF r.pre = "$" THEN LET x == SibRef(sibs, r.path) IN (x.k = "value" /\ x.f.kind = "set") \/ (x.k = "exists" /\ Dsl(c, 6))
                 ELSE \E x \in IfaceRefs(c, r.path) : x.k = "value" /\ x.f.kind = "set"
            ELSE IF l.pre = "$"
            THEN LET x == SibRef(sibs, l.path) IN
                 CASE x.k = "size" -> sizeOk
                   [] x.k = "field" -> right({x})
                   [] OTHER -> FALSE
            ELSE LET xs == IfaceRefs(c, l.path) IN
                 IF \E x \in xs : x.k = "size" THEN sizeOk ELSE right(fieldsOf(xs))
NoCond == EmptyMap
HasCond(t) == t # NoCond

\* validCond, construct and readCond of a composite: text, or a single and/or list
CondKidsOf(n, prop) == SelectSeq(n.c, LAMBDA k : k.t = prop /\ ~Attr(k, "value"))
SetCond(r, n, c, prop, key, since, sibs, ifOk) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, prop) THEN Fail(r)
    ELSE LET good(t) == (ifOk \/ ~CondUsesIface(t)) /\ CondOk(c, t, sibs)
             r1 == IF ~Has(n, prop) THEN r
                   ELSE IF ~Dsl(c, since) THEN Warn(r, 1)
                   ELSE IF ~CondText(c, P(n, prop)) \/ ~good(CondTree(P(n, prop))) THEN Fail(r)
                   ELSE Put(r, key, CondTree(P(n, prop)))
             ks == CondKidsOf(n, prop)
         IN IF ~r1.ok \/ ks = <<>> THEN r1
            ELSE IF ~Dsl(c, since) THEN Warn(r1, 1)
            ELSE IF Len(ks) > 1 \/ Has(n, prop) THEN Fail(r1)
            ELSE LET ls == KidsIn(ks[1], {"and", "or"}) IN
                 IF Len(ls) # 1 THEN Fail(r1)
                 ELSE LET t == CondList(c, ls[1], prop) IN
                      IF ~t.ok \/ ~good(t.v) THEN Fail(r1) ELSE Put(r1, key, t.v)

---------------------------------------------------------------------------
(* aliases *)
AliasProps == {"name", "description", "field"}
RECURSIVE AliasPath(_, _)
\* the rest of an alias path below member f
AliasPath(f, path) ==
    IF path = <<>> \/ path = <<"">> THEN TRUE
    ELSE f.kind \in {"bundle", "bitfield"}
         /\ LET m == MemberNamed(f.members, path[1]) IN ~IsNone(m) /\ AliasPath(m, Tail(path))
AliasTarget(ms, path) == LET m == MemberNamed(ms, path[1]) IN ~IsNone(m) /\ AliasPath(m, Tail(path))
SetAlias(r, k, c, key) ==
    IF ~r.ok THEN r
    ELSE IF ~PropKids(k, AliasProps) \/ \E p \in AliasProps : ~One(k, p) THEN Fail(r)
    ELSE IF ~Has(k, "name") \/ ~P(k, "name").nm \/ ~Has(k, "field") THEN Fail(r)
    ELSE LET d == TextOf(c, k, "description")
             fv == P(k, "field")
             nm == P(k, "name")
         IN IF ~d.ok \/ fv.pre # "$" \/ ~fv.acc.rf THEN Fail(r)
            ELSE IF \E i \in DOMAIN r.f[key] : SameAccessor(r.f[key][i].name, nm.s) THEN Fail(r)
            ELSE IF \E i \in DOMAIN r.f.aliases : SameAccessor(r.f.aliases[i].name, nm.s) THEN Fail(r)
            ELSE IF ~AliasTarget(r.f[key], fv.acc.p) THEN Fail(r)
            ELSE Warn([r EXCEPT !.f.aliases = Append(@, [name |-> nm.s, field |-> fv.acc.s, path |-> fv.acc.p])],
                      XWarn(c, k, AliasProps, AliasProps))
\* inherited aliases stay while what they denote is there
KeptAliases(as, ms) == SelectSeq(as, LAMBDA a : AliasTarget(ms, a.path))
\* no two accessors of a scope share a name
AliasNamesOk(as, ms) ==
    \A i \in DOMAIN as :
        /\ \A j \in DOMAIN ms : ~SameAccessor(ms[j].name, as[i].name)
        /\ \A j \in DOMAIN as : i # j => ~SameAccessor(as[j].name, as[i].name)

---------------------------------------------------------------------------
(* fields in fields *)
Ctx(c, f, k, sibs) == [c EXCEPT !.pk = k, !.ps = f.since, !.pd = f.dep, !.sib = sibs]
RECURSIVE ParseField(_, _)
\* one nested definition, added to the warnings of the surrounding one
Inner(r, k, c, Use(_, _)) ==
    IF k.t \notin FieldKinds THEN Fail(r)
    ELSE LET x == ParseField(k, Ctx(c, r.f, r.f.kind, <<>>)) IN
         IF ~x.ok THEN Fail(r) ELSE Use(Warn(r, x.w), x.f)
\* a field given by reference (property prop) or as a child
FieldFromRef(r, n, c, prop, key) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, prop) THEN Fail(r)
    ELSE IF ~Has(n, prop) THEN r
    ELSE LET f == FindField(c, P(n, prop)) IN IF IsNone(f) THEN Fail(r) ELSE Put(r, key, f)
FieldAsChild(r, n, c, prop, key) ==
    IF ~r.ok THEN r
    ELSE LET ks == Kids(n, prop)
             alone == KidsIn(n, FieldKinds)
             use(rr, k) == Inner(rr, k, c, LAMBDA a, f : Put(a, key, f))
         IN IF Len(ks) > 1 \/ (ks # <<>> /\ alone # <<>>) THEN Fail(r)
            ELSE IF alone # <<>>
            THEN IF Len(alone) > 1 \/ Len(n.c) # 1 \/ Has(n, prop) THEN Fail(r) ELSE use(r, alone[1])
            ELSE IF ks = <<>> THEN r
            ELSE IF Len(ks[1].c) > 1 THEN Fail(r)
            ELSE IF Has(n, prop) THEN r
            ELSE IF ks[1].c = <<>> THEN Fail(r)
            ELSE use(r, ks[1].c[1])
PrefixKind(f) == f.kind = "int" \/ f.sem = SemTypes["length"]
Without(r, key) == [r EXCEPT !.f = [x \in DOMAIN r.f \ {key} |-> r.f[x]]]
\* a length/count/... prefix: key for a field, dkey for the name of a sibling
SetPrefix(r, n, c, prop, key, dkey) ==
    LET fromRef(rr) ==
            IF ~Has(n, prop) THEN rr
            ELSE LET v == P(n, prop) IN
                 IF v.s = "" THEN Fail(rr)
                 ELSE IF v.det
                 THEN IF c.pk \notin {"msg", "bundle"} \/ v.dn = "" THEN Fail(rr)
                      ELSE Without(Put(Put(rr, dkey, v.dn), dkey \o "_p", v.dp), key)
                 ELSE LET f == FindField(c, v) IN
                      IF IsNone(f) THEN Fail(rr)
                      ELSE IF ~PrefixKind(f) THEN Fail(rr)
                      ELSE Put(Put(rr, key, f), dkey, "")
        ks == Kids(n, prop)
        asChild(rr) ==
            IF ~rr.ok \/ ks = <<>> THEN rr
            ELSE IF Len(ks) > 1 \/ Len(ks[1].c) > 1 THEN Fail(rr)
            ELSE IF ks[1].c = <<>> THEN Need(rr, Has(n, prop))
            ELSE IF Has(n, prop) THEN Fail(rr)
            ELSE Inner(rr, ks[1].c[1], c, LAMBDA a, f : IF PrefixKind(f) THEN Put(Put(a, key, f), dkey, "") ELSE Fail(a))
    IN IF ~r.ok THEN r ELSE IF ~One(n, prop) THEN Fail(r) ELSE asChild(fromRef(r))
Prefixed(f, key, dkey) == key \in DOMAIN f \/ f[dkey] # ""

\* the sibling a detached prefix names
RECURSIVE SibAt(_, _)
SibAt(ms, path) == LET m == MemberNamed(ms, path[1]) IN
                   IF IsNone(m) THEN NoRec
                   ELSE IF Len(path) = 1 THEN m
                   ELSE IF HasMembers(m) THEN SibAt(m.members, Tail(path)) ELSE NoRec
RECURSIVE DerefKind(_)
DerefKind(f) == IF f.kind = "ref" THEN DerefKind(f.ref) ELSE f.kind
DetachedOk(f, dkey, sibs) ==
    f[dkey] = "" \/ LET s == SibAt(sibs, f[dkey \o "_p"])
                    IN ~IsNone(s) /\ (DerefKind(s) = "int" \/ s.sem = SemTypes["length"])
\* what a member requires from the members before it
SiblingsOk(c, f, sibs) ==
    CASE f.kind = "optional" -> ~HasCond(f.cond) \/ CondOk(c, f.cond, sibs)
      [] f.kind \in {"string", "data"} -> DetachedOk(f, "detp", sibs)
      [] f.kind = "list" -> \A d \in {"dcp", "dlp", "delp"} : DetachedOk(f, d, sibs)
      [] OTHER -> TRUE
\* all of them, whether declared here, inherited or replaced
InOrder(c, ms) == \A i \in DOMAIN ms : SiblingsOk(c, ms[i], SubSeq(ms, 1, i - 1))

---------------------------------------------------------------------------
(* members of composites *)
NamesUnique(ms) == \A i, j \in DOMAIN ms : i < j => ~SameAccessor(ms[i].name, ms[j].name)
\* reused members: those that are gone are left out, none is older than its container
Present(ms, since) == LET keep == SelectSeq(ms, LAMBDA m : ~(m.rem /\ m.dep <= since))
                      IN [i \in DOMAIN keep |-> IF keep[i].since < since THEN [keep[i] EXCEPT !.since = since] ELSE keep[i]]
Members(r, n, c, kinds, addOk) ==
    IF ~r.ok THEN r
    ELSE LET f == r.f
             old == Present(f.members, f.since)
             mn == Kids(n, "members")
             alone == KidsIn(n, kinds)
             nodes == IF mn # <<>> THEN mn[1].c ELSE alone
             add(a, k) == Inner(a, k, c, LAMBDA b, m : [b EXCEPT !.f.members = Append(@, m)])
             r0 == Put(r, "members", old)
         IN IF Len(mn) > 1 \/ (mn # <<>> /\ alone # <<>>) THEN Fail(r)
            ELSE IF nodes = <<>> /\ old = <<>> THEN Fail(r)
            ELSE IF mn = <<>> /\ alone = <<>> THEN r0
            ELSE IF alone # <<>> /\ Len(n.c) # Len(alone) THEN Fail(r)
            ELSE IF \E i \in DOMAIN nodes : nodes[i].t \notin kinds THEN Fail(r)
            ELSE IF old # <<>> /\ ~addOk THEN Fail(r)
            ELSE LET r1 == Over(r0, nodes, add) IN IF r1.ok /\ NamesUnique(r1.f.members) THEN r1 ELSE Fail(r1)
FirstMember(r) == IF ~r.ok THEN r ELSE Need(r, \E i \in DOMAIN r.f.members : r.f.members[i].since = r.f.since)
\* copyValidCondFrom / validCond of a composite
CopyCond(r, n, c, prop, key, since, Find(_, _), sibs) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, prop) THEN Fail(r)
    ELSE IF ~HasV(n, prop) THEN r
    ELSE IF ~Dsl(c, since) THEN Warn(r, 1)
    ELSE LET f == Find(c, P(n, prop)) IN
         IF IsNone(f) THEN Fail(r)
         ELSE IF HasCond(r.f[key]) THEN Fail(r)
         ELSE IF ~HasCond(f[key]) THEN Warn(r, 1)
         ELSE IF ~CondOk(c, f[key], sibs) THEN Fail(r)
         ELSE Put(r, key, f[key])
SameKind(k) == [x \in {"k"} |-> k]
ValidCond(r, n, c) ==
    IF ~r.ok THEN r
    ELSE LET find(cc, v) == LET f == FindField(cc, v) IN IF IsNone(f) \/ f.kind # r.f.kind THEN NoRec ELSE f
             r1 == CopyCond(r, n, c, "copyValidCondFrom", "valid", 7, find, r.f.members)
             r2 == SetCond(r1, n, c, "validCond", "valid", 7, r1.f.members, FALSE)
             \* an inherited condition still has to make sense
         IN IF r2.ok /\ HasCond(r2.f.valid) THEN Need(r2, CondOk(c, r2.f.valid, r2.f.members)) ELSE r2

\* <replace> of a reusing composite: named members are exchanged in place
CanReplace == {"bundle", "bitfield", "variant"}
ReplaceIn(r, n, c, kinds, key) ==
    LET rs == Kids(n, "replace") IN
    IF ~r.ok \/ rs = <<>> THEN r
    ELSE IF Len(rs) > 1 THEN Fail(r)
    ELSE IF ~Dsl(c, 5) THEN Warn(r, 1)
    ELSE IF rs[1].c = <<>> \/ \E i \in DOMAIN rs[1].c : rs[1].c[i].t \notin kinds THEN Fail(r)
    ELSE LET at(ms, m) == { i \in DOMAIN ms : ms[i].name = m.name } IN
         Over(r, rs[1].c, LAMBDA a, k :
            Inner(a, k, c, LAMBDA b, m :
                LET is == at(b.f[key], m) IN
                IF is = {} THEN Fail(b)
                ELSE IF b.f.kind = "bitfield" /\ (m.since # 0 \/ m.dep # NoDep) THEN Fail(b)
                ELSE [b EXCEPT !.f[key][CHOOSE i \in is : TRUE] = m]))

---------------------------------------------------------------------------
(* <bitfield> *)
BitfieldInit == [members |-> <<>>, valid |-> NoCond]
BitsOf(ms) == FoldLeft(LAMBDA a, m : WAdd(a, m.bits), W0, ms)
ParseBitfield(r, n, c) ==
    LET r1 == Members(SetEndian(r, n, c), n, c, BitKinds, FALSE)
        r2 == IF ~r1.ok THEN r1
              ELSE LET new == Kids(n, "members") # <<>> \/ KidsIn(n, BitKinds) # <<>>
                       same(m) == m.since = r1.f.since /\ m.dep = r1.f.dep
                   IN Need(r1, /\ new => \A i \in DOMAIN r1.f.members : same(r1.f.members[i])
                            /\ BitsOf(r1.f.members)[3] % 8 = 0
                            /\ WLe(BitsOf(r1.f.members), WN(64)))
    IN ValidCond(r2, n, c)

(* <bundle> *)
BundleInit == [members |-> <<>>, aliases |-> <<>>, valid |-> NoCond]
ReuseAliases(r, n, c) ==
    IF ~Has(n, "reuse") THEN r
    ELSE IF ~Dsl(c, 3) THEN Put(r, "aliases", <<>>)
    ELSE IF ~One(n, "reuseAliases") THEN Fail(r)
    ELSE IF ~Has(n, "reuseAliases") THEN r
    ELSE IF ~IsBool(P(n, "reuseAliases")) THEN Fail(r)
    ELSE IF BoolOf(P(n, "reuseAliases")) THEN r ELSE Put(r, "aliases", <<>>)
Aliases(r, n, c, key) ==
    IF ~r.ok THEN r
    ELSE LET ks == Kids(n, "alias") IN
         IF ks # <<>> /\ ~Dsl(c, 3) THEN Fail(r)
         ELSE LET kept == KeptAliases(r.f.aliases, r.f[key])
                  r1 == Need(Put(r, "aliases", kept), AliasNamesOk(kept, r.f[key]))
              IN Over(r1, IF r1.ok THEN ks ELSE <<>>, LAMBDA a, k : SetAlias(a, k, c, key))
LengthMembers(ms) == SelectSeq(ms, LAMBDA m : m.sem = SemTypes["length"])
ParseBundle(r, n, c) ==
    LET r0 == Members(r, n, c, FieldKinds, TRUE)
        r1 == FirstMember(IF r0.ok THEN Need(r0, InOrder(c, r0.f.members)) ELSE r0)
        r2 == IF ~r1.ok THEN r1 ELSE Need(r1, Len(LengthMembers(r1.f.members)) <= 1)
    IN ValidCond(Aliases(r2, n, c, "members"), n, c)

(* <variant> *)
\* an enumerator, by its path
EnumRef(c, v) ==
    IF Len(v.rp) < 2 THEN Bad
    ELSE LET f == FindField(c, [v EXCEPT !.rp = Front(@)]) IN
         IF IsNone(f) \/ (~IsNone(f) /\ (f.kind # "enum" \/ Last(v.rp) \notin DOMAIN f.vals)) THEN Bad
         ELSE Ok(f.vals[Last(v.rp)].val)
VariantInit == [members |-> <<>>, defi |-> WNeg(W1)]
DefaultMember(r, n, c) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "defaultMember") THEN Fail(r)
    ELSE IF ~HasV(n, "defaultMember") THEN r
    ELSE LET v == P(n, "defaultMember")
             ms == r.f.members
             is == { i \in DOMAIN ms : ms[i].name = v.s }
             at(x) == IF ~x.ok THEN Fail(r)
                      ELSE IF WLt(x.v, W0) THEN Put(r, "defi", WNeg(W1))
                      ELSE IF WLe(WN(Len(ms)), x.v) THEN Fail(r) ELSE Put(r, "defi", x.v)
         IN IF v.nm THEN (IF is = {} THEN Fail(r) ELSE Put(r, "defi", WN((CHOOSE i \in is : TRUE) - 1)))
            ELSE IF v.rf THEN at(EnumRef(c, v)) ELSE at(v.i)
ParseVariant(r, n, c) ==
    Obsolete(DefaultMember(FirstMember(Members(r, n, c, FieldKinds, TRUE)), n, c), n, c, "displayIdxReadOnlyHidden")

---------------------------------------------------------------------------
(* <string>, <data> *)
StringInit == [def |-> "", enc |-> "", flen |-> 0, zterm |-> FALSE, detp |-> "", detp_p |-> <<>>, vv |-> <<>>]
DataInit == [def |-> "", flen |-> 0, detp |-> "", detp_p |-> <<>>, vv |-> <<>>]
TextLen(f) == IF f.kind = "data" THEN Len(f.def) \div 2 ELSE Len(f.def)
TextVal(c, f, v) ==
    IF f.kind = "string" THEN StrOf(c, v)
    ELSE IF Dsl(c, 2) /\ v.x.k = "ref" THEN RefVal(c, v.x.r, FieldData)
    ELSE v.hx
TooLong(f) == f.flen # 0 /\ f.flen < TextLen(f)
FixedLen(r, n) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "length") THEN Fail(r)
    ELSE IF ~Has(n, "length") THEN r
    ELSE LET u == P(n, "length").u IN
         IF u <= 0 THEN Fail(r)
         ELSE IF u = r.f.flen THEN r
         ELSE IF Prefixed(r.f, "lenp", "detp") \/ (r.f.kind = "string" /\ r.f.zterm) THEN Fail(r)
         ELSE Put(r, "flen", u)
LenPrefix(r, n, c) ==
    LET r1 == SetPrefix(r, n, c, "lengthPrefix", "lenp", "detp") IN
    IF ~r1.ok \/ ~Prefixed(r1.f, "lenp", "detp") THEN r1
    ELSE Need(r1, r1.f.flen = 0 /\ ~(r1.f.kind = "string" /\ r1.f.zterm))
ZeroTerm(r, n) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "zeroTermSuffix") THEN Fail(r)
    ELSE IF ~Has(n, "zeroTermSuffix") THEN r
    ELSE IF ~IsBool(P(n, "zeroTermSuffix")) THEN Fail(r)
    ELSE LET b == BoolOf(P(n, "zeroTermSuffix")) IN
         IF b = r.f.zterm THEN r
         ELSE IF ~b THEN Put(r, "zterm", FALSE)
         ELSE IF r.f.flen # 0 \/ Prefixed(r.f, "lenp", "detp") THEN Fail(r)
         ELSE Put(r, "zterm", TRUE)
TextValues(r, n, c) ==
    IF ~r.ok THEN r
    ELSE LET set(rr, prop) == LET x == TextVal(c, rr.f, P(n, prop)) IN
                              IF x.ok THEN Put(rr, "def", x.v) ELSE Fail(rr)
             long(rr) == IF rr.ok THEN WarnIf(rr, TooLong(rr.f)) ELSE rr
             vadd(rr, x, s, d) == [rr EXCEPT !.f.vv = Append(@, [v |-> x, since |-> s, dep |-> d])]
             r1 == IF ~One(n, "defaultValue") THEN Fail(r)
                   ELSE long(IF Has(n, "defaultValue") THEN set(r, "defaultValue") ELSE r)
             r2 == IF ~r1.ok \/ ~One(n, "defaultValidValue") THEN Fail(r1)
                   ELSE IF ~Has(n, "defaultValidValue") THEN r1
                   ELSE IF ~Dsl(c, 7) THEN Warn(r1, 1)
                   ELSE LET x == long(set(r1, "defaultValidValue"))
                        IN IF ~x.ok THEN x ELSE vadd(x, x.f.def, x.f.since, x.f.dep)
             r3 == IF ~r2.ok \/ ~Attr(n, "validValue") THEN r2
                   ELSE IF ~Dsl(c, 7) THEN Warn(r2, 1)
                   ELSE LET x == TextVal(c, r2.f, P(n, "validValue"))
                        IN IF x.ok THEN vadd(r2, x.v, r2.f.since, r2.f.dep) ELSE Fail(r2)
         IN Over(r3, IF r3.ok THEN Kids(n, "validValue") ELSE <<>>, LAMBDA rr, k :
                IF ~Dsl(c, 7) THEN Warn(rr, 1)
                ELSE LET x == TextVal(c, rr.f, k.v)
                         vs == Vers(c, k, rr.f.since, rr.f.dep)
                     IN IF ~x.ok \/ ~vs.ok THEN Fail(rr) ELSE vadd(rr, x.v, vs.since, vs.dep))
ParseString(r, n, c) ==
    TextValues(ZeroTerm(LenPrefix(FixedLen(SetStr(r, n, "encoding", "enc"), n), n, c), n), n, c)
ParseData(r, n, c) == TextValues(LenPrefix(FixedLen(r, n), n, c), n, c)

---------------------------------------------------------------------------
(* <list> *)
ListInit == [fcount |-> 0, dcp |-> "", dlp |-> "", delp |-> "", dts |-> "", dcp_p |-> <<>>, dlp_p |-> <<>>,
    delp_p |-> <<>>, dts_p |-> <<>>, efl |-> FALSE]
Has1(f, i) == CASE i = "count" -> f.fcount # 0
                [] i = "cp" -> Prefixed(f, "cp", "dcp")
                [] i = "lp" -> Prefixed(f, "lp", "dlp")
                [] i = "ts" -> Prefixed(f, "ts", "dts")
ListCount(r, n) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "count") THEN Fail(r)
    ELSE IF ~Has(n, "count") THEN r
    ELSE IF P(n, "count").u <= 0 THEN Fail(r)
    ELSE IF Has1(r.f, "cp") \/ Has1(r.f, "lp") \/ Has1(r.f, "ts") \/ r.f.delp # "" THEN Fail(r)
    ELSE Put(r, "fcount", P(n, "count").u)
OnlyWay(r, i) == IF ~r.ok \/ ~Has1(r.f, i) THEN r
                 ELSE Need(r, \A j \in {"count", "cp", "lp", "ts"} \ {i} : ~Has1(r.f, j))
ParseList(r, n, c) ==
    LET r1 == FieldAsChild(FieldFromRef(r, n, c, "element", "elem"), n, c, "element", "elem")
        r2 == IF ~r1.ok THEN r1 ELSE Need(r1, "elem" \in DOMAIN r1.f)
        r3 == OnlyWay(SetPrefix(ListCount(r2, n), n, c, "countPrefix", "cp", "dcp"), "cp")
        r4 == OnlyWay(SetPrefix(r3, n, c, "lengthPrefix", "lp", "dlp"), "lp")
        r5 == SetBool(r4, n, c, "elemFixedLength", "efl")
        r6 == IF ~r5.ok THEN r5 ELSE Need(r5, ~r5.f.efl \/ r5.f.elem.minl = r5.f.elem.maxl)
        r7 == SetPrefix(r6, n, c, "elemLengthPrefix", "elp", "delp")
        r8 == IF ~r7.ok THEN r7 ELSE Need(r7, r7.f.delp = "" \/ r7.f.efl)
        r9 == SetPrefix(r8, n, c, "termSuffix", "ts", "dts")
    IN IF ~r9.ok \/ ~Has1(r9.f, "ts") THEN r9
       ELSE IF ~Dsl(c, 5) THEN Warn(Without(Put(r9, "dts", ""), "ts"), 1)
       ELSE OnlyWay(r9, "ts")

---------------------------------------------------------------------------
(* <ref> *)
RefInit == [bl |-> 0]
RECURSIVE BitsAllowed(_, _)
BitsAllowed(f, u) ==
    CASE f.kind \in {"int", "enum"} -> ~TypeVar(f.type) /\ u <= f.len * 8
      [] f.kind = "set" -> u <= f.len * 8
      [] f.kind = "ref" -> BitsAllowed(f.ref, u)
      [] OTHER -> FALSE
ParseRef(r, n, c) ==
    IF ~One(n, "field") THEN Fail(r)
    ELSE IF ~Has(n, "field") THEN Need(r, "ref" \in DOMAIN r.f)
    ELSE LET g == FindField(c, P(n, "field"))
             full == WMin(WN(1000000), LMul(g.maxl, WN(8)))
             r1 == IF IsNone(g) THEN Fail(r) ELSE Put(r, "ref", g)
             r2 == IF ~r1.ok \/ ~One(n, "bitLength") THEN Fail(r1)
                   ELSE IF ~HasV(n, "bitLength")
                   THEN IF r1.f.bl = 0 \/ WLt(full, WN(r1.f.bl)) THEN Put(r1, "bl", WToInt(full)) ELSE r1
                   ELSE IF c.pk # "bitfield" THEN Warn(r1, 1)
                   ELSE IF P(n, "bitLength").u <= 0 \/ ~BitsAllowed(g, P(n, "bitLength").u) THEN Fail(r1)
                   ELSE Put(r1, "bl", P(n, "bitLength").u)
         IN IF ~r2.ok THEN r2
            ELSE LET r3 == IF r2.f.name = "" THEN Put(r2, "name", g.name) ELSE r2
                     r4 == IF r3.f.disp = "" THEN Put(r3, "disp", g.disp) ELSE r3
                 IN IF Dsl(c, 2) /\ r4.f.sem = 0 /\ g.sem # SemTypes["messageid"] THEN Put(r4, "sem", g.sem) ELSE r4

---------------------------------------------------------------------------
(* <optional> *)
OptionalInit == [mode |-> 0, cond |-> NoCond, morf |-> FALSE, moi |-> FALSE]
ModeOf(s) == CASE s \in {"t", "tent", "tentative"} -> 0
               [] s \in {"e", "exist", "exists"} -> 1
               [] s \in {"m", "miss", "missing"} -> 2
               [] OTHER -> -1
OptMode(r, n) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "defaultMode") THEN Fail(r)
    ELSE IF ~Has(n, "defaultMode") THEN r
    ELSE IF ModeOf(P(n, "defaultMode").lo) < 0 THEN Fail(r) ELSE Put(r, "mode", ModeOf(P(n, "defaultMode").lo))
OptCond(r, n, c) ==
    IF ~r.ok THEN r
    ELSE LET ls == KidsIn(n, {"and", "or"}) IN
         IF ~One(n, "cond") \/ Len(ls) > 1 \/ (ls # <<>> /\ Has(n, "cond")) THEN Fail(r)
         ELSE IF Has(n, "cond")
         THEN IF ~CondText(c, P(n, "cond")) THEN Fail(r)
              ELSE WarnIf(Put(r, "cond", CondTree(P(n, "cond"))), c.pk \notin {"msg", "bundle"})
         ELSE IF ls = <<>> THEN r
         ELSE LET t == CondList(c, ls[1], "cond") IN IF t.ok THEN Put(r, "cond", t.v) ELSE Fail(r)
ParseOptional(r, n, c) ==
    LET r1 == Obsolete(OptMode(r, n), n, c, "displayExtModeCtrl")
        r2 == SetBool(SetBool(r1, n, c, "missingOnReadFail", "morf"), n, c, "missingOnInvalid", "moi")
        r3 == FieldAsChild(FieldFromRef(r2, n, c, "field", "field"), n, c, "field", "field")
        r4 == IF ~r3.ok THEN r3 ELSE Need(r3, "field" \in DOMAIN r3.f)
    IN OptCond(r4, n, c)

---------------------------------------------------------------------------
(* lengths *)
SumLen(ms, key) == FoldLeft(LAMBDA a, m : LAdd(a, m[key]), W0, ms)
MaxOf(ms) == FoldLeft(LAMBDA a, m : WMax(a, m.maxl), W0, ms)
OptLen(f, k, key) == IF k \in DOMAIN f THEN f[k][key] ELSE W0
PosW(a) == IF WLt(a, W0) THEN WAdd(a, WU64) ELSE a
MinLen(f) ==
    CASE f.kind \in {"int", "enum"} -> IF TypeVar(f.type) THEN W1 ELSE WN(f.len)
      [] f.kind = "set" -> WN(f.len)
      [] f.kind = "float" -> WN(IF f.type = "float" THEN 4 ELSE 8)
      [] f.kind = "bitfield" -> WN(BitsOf(f.members)[3] \div 8)
      [] f.kind = "bundle" -> SumLen(f.members, "minl")
      [] f.kind \in {"string", "data"} ->
            IF f.flen # 0 THEN WN(f.flen) ELSE IF f.kind = "string" /\ f.zterm THEN W1 ELSE OptLen(f, "lenp", "minl")
      [] f.kind = "list" ->
            CASE f.fcount # 0 -> LAdd(LMul(WN(f.fcount), f.elem.minl),
                                     LMul(OptLen(f, "elp", "minl"), WN(IF f.efl THEN 1 ELSE f.fcount)))
              [] "cp" \in DOMAIN f -> f.cp.minl
              [] "lp" \in DOMAIN f -> f.lp.minl
              [] "ts" \in DOMAIN f -> f.ts.minl
              [] OTHER -> W0
      [] f.kind = "ref" -> f.ref.minl
      [] OTHER -> W0
MaxLen(f) ==
    CASE f.kind \in {"int", "enum", "set"} -> WN(f.len)
      [] f.kind \in {"float", "bitfield"} -> MinLen(f)
      [] f.kind = "bundle" -> IF LengthMembers(f.members) # <<>> THEN LMax ELSE SumLen(f.members, "maxl")
      [] f.kind \in {"string", "data"} ->
            IF f.flen # 0 THEN WN(f.flen)
            ELSE IF "lenp" \in DOMAIN f /\ f.lenp.kind = "int" THEN LAdd(f.lenp.maxl, PosW(f.lenp.max)) ELSE LMax
      [] f.kind = "list" ->
            LET x == OptLen(f, "elp", "maxl")
                times(k) == LAdd(LMul(f.elem.maxl, k), LMul(x, IF f.efl THEN W1 ELSE k))
            IN CASE f.fcount # 0 -> times(WN(f.fcount))
                 [] "cp" \in DOMAIN f -> IF f.cp.kind = "int" THEN LAdd(times(PosW(f.cp.max)), f.cp.maxl) ELSE LMax
                 [] "lp" \in DOMAIN f /\ f.lp.kind = "int" -> LAdd(f.lp.maxl, PosW(f.lp.max))
                 [] OTHER -> LMax
      [] f.kind = "ref" -> f.ref.maxl
      [] f.kind = "optional" -> f.field.maxl
      [] f.kind = "variant" -> MaxOf(f.members)
      [] OTHER -> LMax
Bits(f, c) == IF c.pk = "bitfield" /\ f.kind \in BitKinds THEN WN(f.bl) ELSE W0

---------------------------------------------------------------------------
(* what all fields have in common *)
KindInit(k, c) ==
    CASE k = "int" -> IntInit @@ [nusa |-> ~Dsl(c, 2)]
      [] k = "enum" -> EnumInit [] k = "set" -> SetInit
      [] k = "float" -> FloatInit @@ [nusa |-> ~Dsl(c, 2)]
      [] k = "bitfield" -> BitfieldInit [] k = "bundle" -> BundleInit
      [] k = "string" -> StringInit [] k = "data" -> DataInit [] k = "list" -> ListInit
      [] k = "ref" -> RefInit [] k = "optional" -> OptionalInit [] k = "variant" -> VariantInit
ParseKind(r, n, c) ==
    CASE n.t = "int" -> ParseInt(r, n, c) [] n.t = "enum" -> ParseEnum(r, n, c)
      [] n.t = "set" -> ParseSet(r, n, c) [] n.t = "float" -> ParseFloat(r, n, c)
      [] n.t = "bitfield" -> ParseBitfield(r, n, c) [] n.t = "bundle" -> ParseBundle(r, n, c)
      [] n.t = "string" -> ParseString(r, n, c) [] n.t = "data" -> ParseData(r, n, c)
      [] n.t = "list" -> ParseList(r, n, c) [] n.t = "ref" -> ParseRef(r, n, c)
      [] n.t = "optional" -> ParseOptional(r, n, c) [] n.t = "variant" -> ParseVariant(r, n, c)
Reuse(r, n, c) ==
    IF ~One(n, "reuse") THEN Fail(r)
    ELSE IF ~Has(n, "reuse") THEN r
    ELSE LET g == FindField(c, P(n, "reuse")) IN
         IF IsNone(g) \/ (~IsNone(g) /\ g.kind # n.t) THEN Fail(r)
         ELSE LET r1 == Put([r EXCEPT !.f = [g EXCEPT !.since = 0, !.dep = NoDep, !.ccf = "", !.xref = ""]], "rc", FALSE)
                  r2 == SetBool(r1, n, c, "reuseCode", "rc")
                  r3 == IF ~r2.ok THEN r2 ELSE Without(IF r2.f.rc THEN Put(r2, "ccf", P(n, "reuse").s) ELSE r2, "rc")
              IN IF r3.ok /\ n.t = "bundle" THEN ReuseAliases(r3, n, c) ELSE r3
Replace(r, n, c) ==
    IF ~r.ok \/ Kids(n, "replace") = <<>> THEN r
    ELSE IF n.t \in CanReplace
    THEN ReplaceIn(r, n, c, IF n.t = "bitfield" THEN BitKinds ELSE FieldKinds, "members")
    ELSE IF Len(Kids(n, "replace")) > 1 THEN Fail(r)
    ELSE IF ~Dsl(c, 5) THEN Warn(r, 1) ELSE Fail(r)
FieldVersions(r, n, c) ==
    IF ~r.ok THEN r
    ELSE IF \E p \in {"sinceVersion", "deprecated", "removed"} : ~One(n, p) THEN Fail(r)
    ELSE LET vs == Vers(c, n, c.ps, c.pd)
             rem == IF Has(n, "removed") THEN BoolOf(P(n, "removed")) ELSE FALSE
             member == c.pk = "msg" \/ c.pk \in FieldKinds
             \* versions have no meaning outside messages and composites
             w == IF member THEN 0 ELSE B2N(vs.since # 0) + B2N(vs.dep # NoDep)
         IN IF ~vs.ok \/ (Has(n, "removed") /\ ~IsBool(P(n, "removed"))) THEN Fail(r)
            ELSE LET s == IF member THEN vs.since ELSE 0
                     d == IF member THEN vs.dep ELSE NoDep
                 IN WarnIf(Warn(Put(Put(Put(r, "since", s), "dep", d), "rem", rem /\ d # NoDep), w), rem /\ d = NoDep)
SetSem(r, n) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "semanticType") THEN Fail(r)
    ELSE IF ~Has(n, "semanticType") THEN r
    ELSE LET s == P(n, "semanticType").lo IN
         IF s = "" THEN Put(r, "sem", 0)
         ELSE IF s \notin DOMAIN SemTypes THEN Fail(r) ELSE Put(r, "sem", SemTypes[s])
CopyCode(r, n, c, Find(_, _)) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "copyCodeFrom") THEN Fail(r)
    ELSE IF ~Has(n, "copyCodeFrom") THEN r
    ELSE IF ~PropOk(c, "copyCodeFrom") THEN Warn(r, 1)
    ELSE IF IsNone(Find(c, P(n, "copyCodeFrom"))) THEN Fail(r)
    ELSE Put(r, "ccf", P(n, "copyCodeFrom").s)
SetVml(r, n, c, since) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "validateMinLength") THEN Fail(r)
    ELSE IF ~Has(n, "validateMinLength") THEN r
    ELSE IF ~Dsl(c, since) THEN Warn(r, 1)
    ELSE IF P(n, "validateMinLength").u < 0 THEN Fail(r)
    ELSE Put(r, "vml", P(n, "validateMinLength").u)
RECURSIVE SemOk(_, _, _)
SemOk(f, sem, c) ==
    CASE sem = 0 -> TRUE
      [] sem = SemTypes["version"] -> f.kind = "int" \/ (f.kind = "ref" /\ SemOk(f.ref, sem, c))
      [] sem = SemTypes["messageid"] -> f.kind = "enum" \/ (f.kind = "ref" /\ SemOk(f.ref, sem, c))
      [] OTHER -> CASE f.kind = "int" -> Dsl(c, 2)
                    [] f.kind \in {"bitfield", "bundle"} -> Dsl(c, 5)
                    [] f.kind = "ref" -> SemOk(f.ref, sem, c)
                    [] OTHER -> FALSE
ParseField(n, c) ==
    LET props == CommonProps \cup KindProps[n.t] \cup KindPoss[n.t]
        kids == props \cup {"meta", "replace"} \cup KindKids[n.t]
    IN
    IF ~PropKids(n, CommonProps \cup KindProps[n.t]) \/ ~PossKids(n, KindPoss[n.t]) THEN BadRes
    ELSE
    LET r1 == Replace(Reuse(Res(BlankCommon(n.t) @@ KindInit(n.t, c)), n, c), n, c)
        r2 == SetText(SetText(SetStr(r1, n, "name", "name"), n, c, "displayName", "disp"), n, c, "description", "desc")
        r3 == SetSem(FieldVersions(r2, n, c), n)
        r4 == SetBool(SetBool(r3, n, c, "pseudo", "pseudo"), n, c, "fixedValue", "fixedv")
        r5 == Obsolete(Obsolete(r4, n, c, "displayReadOnly"), n, c, "displayHidden")
        r6 == SetBool(SetBool(SetBool(r5, n, c, "customizable", "custom"), n, c, "failOnInvalid", "foi"), n, c, "forceGen", "fgen")
        r7 == FoldLeft(LAMBDA a, i : SetOvr(a, n, c, <<"valueOverride", "readOverride", "writeOverride", "refreshOverride",
                            "lengthOverride", "validOverride", "nameOverride">>[i], i), r6, <<1, 2, 3, 4, 5, 6, 7>>)
        r8 == SetVml(CopyCode(r7, n, c, FindField), n, c, 7)
    IN IF ~r8.ok THEN r8
       ELSE
       LET r9 == ParseKind(r8, n, c) IN
       IF ~r9.ok THEN r9
       ELSE LET f == r9.f
                g == [ "minl" :> MinLen(f) @@ "maxl" :> MaxLen(f) @@ "bits" :> Bits(f, c) @@ f
                       EXCEPT !.xattr = XMerge(@, XAttrs(n, props)), !.xelem = @ + XElems(n, kids)]
            IN IF ~SemOk(f, f.sem, c) \/ f.name = "" \/ (HasV(n, "name") /\ ~P(n, "name").nm) \/ (f.vml >= 0 /\ g.minl # WN(f.vml)) THEN Fail(r9)
               ELSE Warn([r9 EXCEPT !.f = g], XWarn(c, n, props, kids))
===========================================================================
