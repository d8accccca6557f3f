------------------------------- MODULE Props -------------------------------
(* What holds in every state of the parser: the properties, stated on the   *)
(* symbol table alone and independently of the rules which build it. They   *)
(* are checked as invariants in every state reached by the explorations and *)
(* by every validated run of the real parser.                               *)
EXTENDS Project

RECURSIVE AllNs(_)
\* the namespaces of a tree, as a set
AllNs(nss) == { nss[x] : x \in DOMAIN nss } \cup UNION { AllNs(nss[x].nss) : x \in DOMAIN nss }

KidsOf(f) ==
    CASE f.kind \in {"bitfield", "bundle", "variant"} -> f.members
      [] f.kind = "list" -> FoldLeft(LAMBDA a, k : IF k \in DOMAIN f THEN Append(a, f[k]) ELSE a, <<>>,
                                     <<"elem", "cp", "lp", "elp", "ts">>)
      [] f.kind \in {"string", "data"} -> IF "lenp" \in DOMAIN f THEN <<f.lenp>> ELSE <<>>
      [] f.kind = "optional" -> IF "field" \in DOMAIN f THEN <<f.field>> ELSE <<>>
      [] f.kind = "ref" -> <<f.ref>>
      [] OTHER -> <<>>
\* definitions found elsewhere are judged where they are
OwnKids(f) == SelectSeq(KidsOf(f), LAMBDA k : k.xref = "")

---------------------------------------------------------------------------
(* P01 *)
SchemasOk(st) ==
    /\ \A i, k \in DOMAIN st.schemas : i # k => st.schemas[i].name # st.schemas[k].name
    /\ st.schemas = <<>> <=> st.cur = 0
    /\ st.cur <= Len(st.schemas)
(* P02 *)
Distinct(names) == \A i, k \in DOMAIN names : i # k => ~SameAccessor(names[i], names[k])
NamesOf(s) == [i \in DOMAIN s |-> s[i].name]
MapNames(map) == /\ \A x \in DOMAIN map : map[x].name = x
                 /\ \A x, y \in DOMAIN map : x # y => ~SameAccessor(x, y)
NsNames(ns) == /\ MapNames(ns.fields) /\ MapNames(ns.msgs) /\ MapNames(ns.ifaces) /\ MapNames(ns.frames)
               /\ \A x \in DOMAIN ns.nss : ns.nss[x].name = x
FieldNames(f) == f.kind \in {"bitfield", "bundle", "variant"} => Distinct(NamesOf(f.members))
(* P05 *)
Window(x) == x.since < x.dep /\ (x.rem => x.dep < NoDep)
\* (members of what was reused keep their annotations when the whole is introduced later)
RECURSIVE Nested(_, _)
Nested(f, since) ==
    /\ since <= f.since /\ (f.rem => f.dep < NoDep)
    /\ f.kind \in {"bundle", "bitfield", "variant"} => \A i \in DOMAIN f.members : Nested(f.members[i], 0)
(* P07 *)
IntIn(v, lo, hi) == WLe(lo, v) /\ WLe(v, hi)
Touch(a, b) == WLe(a.min, WAdd(b.max, W1)) /\ WLe(b.min, WAdd(a.max, W1))
SameVers(a, b) == a.since = b.since /\ a.dep = b.dep
IntOk(f) ==
    /\ IntIn(f.def, TypeMin(f.type), TypeMax(f.type))
    /\ \A x \in DOMAIN f.specials : IntIn(f.specials[x].val, TypeMin(f.type), TypeMax(f.type))
    \* (a bound outside of the type is only reported)
    /\ \A i \in DOMAIN f.ranges : LET a == f.ranges[i] IN WLe(a.min, a.max) \/ WLt(f.max, a.min) \/ WLt(a.max, f.min)
    /\ \A i \in DOMAIN f.ranges : i > 1 =>
        LET a == f.ranges[i - 1]
            b == f.ranges[i]
        IN /\ WLe(a.min, b.min)
    /\ \A i, k \in DOMAIN f.ranges :
        i < k /\ SameVers(f.ranges[i], f.ranges[k]) => ~Touch(f.ranges[i], f.ranges[k])
(* P08 *)
EnumOk(f) ==
    /\ DOMAIN f.vals # {}
    /\ \A x \in DOMAIN f.vals : IntIn(f.vals[x].val, TypeMin(f.type), TypeMax(f.type))
    /\ IntIn(f.def, TypeMin(f.type), TypeMax(f.type))
    /\ ~f.nua => \A x, y \in DOMAIN f.vals : x # y => f.vals[x].val # f.vals[y].val
SetOk(f) ==
    /\ \A x \in DOMAIN f.bitsl : f.bitsl[x].idx < (IF f.bl = 0 THEN f.len * 8 ELSE f.bl)
    /\ ~f.nua => \A x, y \in DOMAIN f.bitsl : x # y => f.bitsl[x].idx # f.bitsl[y].idx
(* P09 *)
LenOk(f) == WLe(f.minl, f.maxl)
PartLen(fs, key) == FoldLeft(LAMBDA a, m : LAdd(a, m[key]), W0, fs)
\* (a member with length semantics stands for the rest of its bundle)
BundleLen(f) ==
    (\A i \in DOMAIN f.members : f.members[i].sem # SemTypes["length"]) =>
        f.minl = PartLen(f.members, "minl") /\ f.maxl = PartLen(f.members, "maxl")
VariantLen(f) == \A i \in DOMAIN f.members : WLe(f.minl, f.members[i].minl) /\ WLe(f.members[i].maxl, f.maxl)
(* P10 *)
OneWay(bs) == Cardinality({ i \in DOMAIN bs : bs[i] }) <= 1
TextOk(f) == OneWay(<<f.flen # 0, "lenp" \in DOMAIN f, f.detp # "", f.kind = "string" /\ f.zterm>>)
ListOk(f) == /\ OneWay(<<f.fcount # 0, "cp" \in DOMAIN f, f.dcp # "", "lp" \in DOMAIN f, f.dlp # "",
                         "ts" \in DOMAIN f, f.dts # "">>)
             /\ OneWay(<<"elp" \in DOMAIN f, f.delp # "">>)
             /\ "elem" \in DOMAIN f
(* P12 *)
RECURSIVE MemberAt(_, _)
MemberAt(ms, path) ==
    \E i \in DOMAIN ms :
        /\ SameAccessor(ms[i].name, path[1])
        /\ Len(path) = 1 \/ LET t == IF ms[i].kind = "ref" THEN ms[i].ref ELSE ms[i]
                            IN t.kind \in {"bundle", "bitfield", "variant"} /\ MemberAt(t.members, Tail(path))
AliasesOk(as, ms) ==
    /\ Distinct(NamesOf(as))
    /\ \A i \in DOMAIN as, k \in DOMAIN ms : ~SameAccessor(as[i].name, ms[k].name)
    /\ \A i \in DOMAIN as : MemberAt(ms, as[i].path)
(* P14 *)
KindCount(ls, k) == Cardinality({ i \in DOMAIN ls : ls[i].kind = k })
LayerNo(ls, nm) == CHOOSE i \in DOMAIN ls : ls[i].name = nm
FrameOk(f) ==
    LET ls == f.layers
        p == CHOOSE i \in DOMAIN ls : ls[i].kind = "payload"
        known(nm) == \E i \in DOMAIN ls : ls[i].name = nm
    IN /\ KindCount(ls, "payload") = 1 /\ KindCount(ls, "id") <= 1 /\ KindCount(ls, "size") <= 1
       /\ Distinct(NamesOf(ls))
       /\ \A i \in DOMAIN ls : ls[i].kind \notin {"payload", "custom"} => "field" \in DOMAIN ls[i]
       /\ "field" \notin DOMAIN ls[p]
       /\ \A i \in DOMAIN ls : ls[i].kind = "checksum" =>
            /\ (ls[i].from # "") # (ls[i].until # "")
            /\ ls[i].from # "" => known(ls[i].from) /\ LayerNo(ls, ls[i].from) < i
            /\ ls[i].until # "" => known(ls[i].until) /\ i < LayerNo(ls, ls[i].until)
(* P17 *)
IsBits(m) == m.kind \in {"int", "enum", "set", "ref"}
BitfieldOk(f) ==
    LET total == FoldLeft(LAMBDA a, m : WAdd(a, m.bits), W0, f.members)
    IN /\ f.members # <<>>
       /\ \A i \in DOMAIN f.members : IsBits(f.members[i])
       /\ WLe(total, WN(64)) /\ WSmall(total) /\ WToInt(total) % 8 = 0 /\ W0 # total
VariantOk(f) == f.members # <<>> /\ WLt(f.defi, WN(Len(f.members)))
(* P18 *)
FloatOk(f) ==
    LET Inf == <<524032, 0, 0>> IN      \* 0x7ff0000000000000
    /\ \A i \in DOMAIN f.ranges : f.ranges[i].min # WNan /\ f.ranges[i].max # WNan =>
        WLe(f.ranges[i].min, f.ranges[i].max) \/ f.ranges[i].min = Inf \/ f.ranges[i].max = WNeg(Inf)
    /\ \A i, k \in DOMAIN f.ranges : i < k /\ SameVers(f.ranges[i], f.ranges[k])
            /\ {WNan, Inf, WNeg(Inf)} \cap {f.ranges[i].min, f.ranges[i].max, f.ranges[k].min, f.ranges[k].max} = {} =>
        WLt(f.ranges[i].max, f.ranges[k].min) \/ WLt(f.ranges[k].max, f.ranges[i].min)

\* broken properties, as a set of labels
Unless(b, label) == IF b THEN {} ELSE {label}
BadField(f) ==
    Unless(FieldNames(f), "P02 " \o f.name) \cup Unless(LenOk(f), "P09 " \o f.name) \cup
    CASE f.kind = "int" -> Unless(IntOk(f), "P07 " \o f.name)
      [] f.kind = "enum" -> Unless(EnumOk(f), "P08 " \o f.name)
      [] f.kind = "set" -> Unless(SetOk(f), "P08 " \o f.name)
      [] f.kind = "float" -> Unless(FloatOk(f), "P18 " \o f.name)
      [] f.kind = "bitfield" -> Unless(BitfieldOk(f), "P17 " \o f.name)
      [] f.kind = "bundle" -> Unless(f.members # <<>>, "P17 " \o f.name)
                              \cup Unless(BundleLen(f), "P09 sum " \o f.name)
                              \cup Unless(AliasesOk(f.aliases, f.members), "P12 " \o f.name)
      [] f.kind = "variant" -> Unless(VariantOk(f), "P17 " \o f.name) \cup Unless(VariantLen(f), "P09 var " \o f.name)
      [] f.kind \in {"string", "data"} -> Unless(TextOk(f), "P10 " \o f.name)
      [] f.kind = "list" -> Unless(ListOk(f), "P10 " \o f.name)
      [] OTHER -> {}
RECURSIVE BadTree(_)
BadTree(f) == LET ks == OwnKids(f) IN BadField(f) \cup UNION { BadTree(ks[i]) : i \in DOMAIN ks }
BadTop(f) == BadTree(f) \cup Unless(Nested(f, 0), "P05 " \o f.name)
             \cup Unless(f.since = 0 /\ f.dep = NoDep /\ ~f.rem, "P05 global " \o f.name)
BadMsg(s, m) ==
    Unless(Distinct(NamesOf(m.fields)), "P02 " \o m.name)
    \cup Unless(AliasesOk(m.aliases, m.fields), "P12 " \o m.name)
    \cup Unless(Window(m) /\ m.since <= s.version, "P05 " \o m.name)
    \cup UNION { BadTree(m.fields[i]) : i \in DOMAIN m.fields }
    \cup UNION { Unless(Nested(m.fields[i], m.since), "P05 " \o m.name \o "." \o m.fields[i].name) : i \in DOMAIN m.fields }
    \cup Unless(WLe(m.minl, m.maxl), "P09 " \o m.name)
    \cup Unless(DOMAIN m.platforms \subseteq DOMAIN s.platforms /\ m.sender \in {0, 1, 2}, "P15 " \o m.name)
BadIface(m) ==
    Unless(Distinct(NamesOf(m.fields)), "P02 " \o m.name)
    \cup Unless(AliasesOk(m.aliases, m.fields), "P12 " \o m.name)
    \cup UNION { BadTree(m.fields[i]) : i \in DOMAIN m.fields }
BadNs(s, ns) ==
    Unless(NsNames(ns), "P02 " \o ns.name)
    \cup UNION { BadTop(ns.fields[x]) : x \in DOMAIN ns.fields }
    \cup UNION { BadMsg(s, ns.msgs[x]) : x \in DOMAIN ns.msgs }
    \cup UNION { BadIface(ns.ifaces[x]) : x \in DOMAIN ns.ifaces }
    \cup UNION { Unless(FrameOk(ns.frames[x]), "P14 " \o x) : x \in DOMAIN ns.frames }
Broken(st) ==
    Unless(SchemasOk(st), "P01")
    \cup UNION { UNION { BadNs(st.schemas[i], ns) : ns \in AllNs(st.schemas[i].nss) } : i \in DOMAIN st.schemas }
===========================================================================
