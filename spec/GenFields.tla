----------------------------- MODULE GenFields -----------------------------
(* What the definitions of fields, messages, interfaces and frames state    *)
(* about the data on the wire.                                              *)
(*                                                                          *)
(* Each element calls for facts <<kind, place, value>> about the generated  *)
(* code: the class defined at a place (its base class, arguments, options), *)
(* the list of its members, the names given to them, the value it starts    *)
(* with, what it checks about its length. The place of a class is its full  *)
(* C++ name, so equal fields have equal facts wherever they appear.         *)
(* Valid values are compared by meaning: for every version in question the  *)
(* set of values the code takes is the set of values which are declared.    *)
EXTENDS Gen

Unsupported(st, o) == \/ \E i \in DOMAIN st.schemas : st.schemas[i].dsl > 8
                      \/ o.force >= 0 /\ o.force > st.schemas[Len(st.schemas)].version

---------------------------------------------------------------------------
(* the surroundings of a schema: protocol, options, index, main namespace,  *)
(* whether the code depends on the version                                  *)
VersionDependent(st, i, o) ==
    /\ ~o.vindep
    /\ LET sp == Spaces(st.schemas[i].nss, <<>>) IN
       \E k \in DOMAIN sp : \E x \in DOMAIN sp[k].ns.ifaces :
          \E n \in DOMAIN sp[k].ns.ifaces[x].fields : sp[k].ns.ifaces[x].fields[n].sem = SemTypes["version"]
Around(st, i, o) == [st |-> st, i |-> i, o |-> o, main |-> MainNs(st, i, o), vd |-> VersionDependent(st, i, o),
                     little |-> st.schemas[i].endian]
\* the place of a global field by its reference "@schema.namespaces.name"
RECURSIVE Dots(_, _, _)
Dots(s, from, i) ==
    IF i > Len(s) THEN <<SubSeq(s, from, Len(s))>>
    ELSE IF SubSeq(s, i, i) = "." THEN <<SubSeq(s, from, i - 1)>> \o Dots(s, i + 1, i + 1)
    ELSE Dots(s, from, i + 1)
SchemaOf(cx, xref) == LET n == Dots(xref, 2, 2)[1] IN CHOOSE i \in DOMAIN cx.st.schemas : cx.st.schemas[i].name = n
Place(cx, xref) ==
    LET p == Dots(xref, 2, 2)
    IN Scope(<<MainNs(cx.st, SchemaOf(cx, xref), cx.o)>> \o SubSeq(p, 2, Len(p) - 1) \o <<"field", Cls(p[Len(p)])>>)
There(cx, xref) == LET i == SchemaOf(cx, xref) IN IF i = cx.i THEN cx ELSE Around(cx.st, i, cx.o)

---------------------------------------------------------------------------
(* versions *)
Ver(cx) == SchemaVersion(cx.st, cx.i, cx.o)
Rem(cx) == MinRemote(cx.st, cx.i, cx.o)
Ex(cx, since, dep, rem) == Exists(cx.st, cx.i, cx.o, since, dep, rem)
\* a member which may be absent for some remote version
Wrapped(cx, f, ps) ==
    /\ cx.vd
    /\ Rem(cx) < f.since \/ (f.rem /\ f.dep < NoDep)
    /\ ps < f.since \/ (f.rem /\ f.dep < NoDep)
\* something in it depends on the version
RECURSIVE Varies(_, _, _)
Varies(cx, f, ps) ==
    LET in(k) == k \in DOMAIN f /\ LET g == f[k] IN
                 IF g.xref # "" THEN Varies(There(cx, g.xref), g, 0) ELSE Varies(cx, g, Max({ps, f.since}))
        some(m) == \E i \in DOMAIN m : m[i].since > f.since \/ m[i].dep < f.dep
    IN cx.vd /\
       \/ Wrapped(cx, f, ps)
       \/ CASE f.kind \in {"int", "float"} -> f.vcv /\ some(f.ranges)
            [] f.kind = "enum" -> f.vcv /\ \E x \in DOMAIN f.vals : Ex(cx, f.vals[x].since, f.vals[x].dep, FALSE)
                                                                 /\ (f.vals[x].since > f.since \/ f.vals[x].dep < f.dep)
            [] f.kind = "set" -> f.vcv /\ some(f.bitsl)
            [] f.kind \in {"bundle", "bitfield", "variant"} ->
                  \E i \in DOMAIN f.members : Varies(cx, f.members[i], Max({ps, f.since}))
            [] f.kind = "ref" -> LET x == f.ref.xref IN Varies(There(cx, x), f.ref, 0)
            [] f.kind = "list" -> \E k \in {"elem", "cp", "lp", "elp", "ts"} : in(k)
            [] f.kind = "optional" -> in("field")
            [] OTHER -> FALSE

---------------------------------------------------------------------------
(* lengths *)
RECURSIVE LowLen(_, _, _)
LowLen(cx, f, ps) ==
    IF Wrapped(cx, f, ps) THEN W0
    ELSE CASE f.kind \in {"int", "enum", "set"} -> IF f.all THEN W1 ELSE f.minl
           [] f.kind = "ref" -> LowLen(There(cx, f.ref.xref), f.ref, 0)
           [] f.kind = "bundle" -> FoldLeft(LAMBDA a, m : LAdd(a, LowLen(cx, m, Max({ps, f.since}))), W0, f.members)
           [] OTHER -> f.minl
RECURSIVE TopLen(_, _)
TopLen(cx, f) ==
    IF f.sem = SemTypes["length"] THEN LMax
    ELSE CASE f.kind = "ref" -> TopLen(There(cx, f.ref.xref), f.ref)
           [] f.kind = "bundle" -> FoldLeft(LAMBDA a, m : LAdd(a, TopLen(cx, m)), W0, f.members)
           [] f.kind = "variant" -> FoldLeft(LAMBDA a, m : WMax(a, TopLen(cx, m)), W0, f.members)
           [] f.kind = "optional" -> IF f.field.xref # "" THEN TopLen(There(cx, f.field.xref), f.field) ELSE TopLen(cx, f.field)
           [] f.kind = "list" /\ f.fcount = 0 -> LMax
           [] f.kind \in {"string", "data"} /\ f.flen = 0 -> LMax
           [] OTHER -> f.maxl

RECURSIVE OwnLength(_)
OwnLength(f) == \/ f.kind = "variant"
                \/ f.kind \in {"bundle", "bitfield"} /\ \E i \in DOMAIN f.members : OwnLength(f.members[i])

---------------------------------------------------------------------------
(* options *)
Op(x) == {"comms::option::def::" \o x}
OpIf(cond, x) == IF cond THEN Op(x) ELSE {}
Base(cx, e) == cx.main \o "::field::FieldBase<"
    \o (IF e = cx.little THEN "" ELSE IF e = 1 THEN "comms::option::def::BigEndian" ELSE "comms::option::def::LittleEndian") \o ">"
Plain(cx) == cx.main \o "::field::FieldBase<>"
Unsigned(f, v) == IF TypeBig(f.type) /\ WLt(v, W0) THEN WAdd(v, WU64) ELSE v
NumDefault(f, v) ==
    IF v = W0 THEN {}
    ELSE LET u == Unsigned(f, v)
         IN IF TypeBig(f.type) /\ WLt(WMaxI, u) THEN Op("DefaultBigUnsignedNumValue<" \o WDec(u) \o ">")
            ELSE Op("DefaultNumValue<" \o WDec(u) \o ">")
\* how many bytes or bits
NumLength(f, sign) ==
    IF TypeVar(f.type) THEN Op("VarLength<" \o WDec(f.minl) \o "," \o WDec(f.maxl) \o ">")
    ELSE IF f.bits # W0 THEN Op("FixedBitLength<" \o WDec(f.bits) \o sign \o ">")
    ELSE OpIf(WN(TypeLen(f.type)) # f.minl, "FixedLength<" \o WDec(f.minl) \o sign \o ">")
Bit(a, i) == IF i < 22 THEN (a[3] \div 2^i) % 2 = 1
             ELSE IF i < 44 THEN (a[2] \div 2^(i - 22)) % 2 = 1
             ELSE (a[1] \div 2^(i - 44)) % 2 = 1
SetBits64(S) == FoldLeft(LAMBDA a, i : IF i \in S THEN WAdd(a, WPow2(i)) ELSE a, W0, [i \in 1..64 |-> i - 1])
SetWidth(f) == LET n == IF f.bits # W0 THEN WToInt(f.bits) ELSE WToInt(f.minl) * 8 IN IF n > 64 THEN 64 ELSE n
BitsAt(f, i) == { x \in DOMAIN f.bitsl : f.bitsl[x].idx = i }
SetDefault(f) ==
    LET on == { i \in 0..(SetWidth(f) - 1) : IF BitsAt(f, i) = {} THEN f.defb ELSE \E x \in BitsAt(f, i) : f.bitsl[x].def }
        v == SetBits64(on)
    IN IF v = W0 THEN {}
       ELSE Op((IF TypeBig(f.type) THEN "DefaultBigUnsignedNumValue<" ELSE "DefaultNumValue<") \o WDec(v) \o ">")
General(f, forced) ==
    (IF "fail" \in forced THEN Op("FailOnInvalid<comms::ErrorStatus::ProtocolError>") ELSE OpIf(f.foi, "FailOnInvalid<>"))
    \cup OpIf(f.pseudo \/ "pseudo" \in forced, "EmptySerialization")
    \cup OpIf(f.fixedv, "FixedValue")
MembersOf(f) == Cls(f.name) \o "Members"
\* how the definition of f names a field it is made of
Part(cx, f, g) == IF g.xref # "" THEN Place(cx, g.xref) ELSE MembersOf(f) \o "::" \o Cls(g.name)
PartOp(cx, f, k, opt) == IF k \in DOMAIN f THEN Op(opt \o "<" \o Part(cx, f, f[k]) \o ">") ELSE {}
GTermSuffix0(cx) == Op("SequenceTerminationFieldSuffix<comms::field::IntValue<" \o Plain(cx)
                   \o ",std::uint8_t,comms::option::def::ValidNumValueRange<0,0>,comms::option::def::FailOnInvalid<>>>")
VersionMembers(cx, f, ps) ==
    Op("HasVersionDependentMembers<" \o (IF \E i \in DOMAIN f.members : Varies(cx, f.members[i], Max({ps, f.since})) THEN "true" ELSE "false") \o ">")
LengthMember(f) == { i \in DOMAIN f.members : f.members[i].sem = SemTypes["length"] }

\* base class, arguments and options of a field of its kind
Definition(cx, f, csc, ps) ==
    CASE f.kind = "int" ->
            [b |-> "comms::field::IntValue", a |-> <<Base(cx, f.endian), CppInt(f.type, f.maxl)>>,
             o |-> NumLength(f, IF f.sext THEN "" ELSE ",false")
                   \cup OpIf(f.serOff # W0, "NumValueSerOffset<" \o WDec(f.serOff) \o ">")
                   \cup OpIf(f.doff # W0, "DisplayOffset<" \o WDec(f.doff) \o ">")
                   \cup OpIf(f.scn # W1 \/ f.scd # W1, "ScalingRatio<" \o WDec(f.scn) \o "," \o WDec(f.scd) \o ">")
                   \cup (IF f.def = W0 /\ f.sem = SemTypes["version"] THEN Op("DefaultNumValue<" \o NDec(Ver(cx)) \o ">") ELSE NumDefault(f, f.def))
                   \cup OpIf(f.all, "AvailableLengthLimit")]
      [] f.kind = "enum" ->
            [b |-> "comms::field::EnumValue", a |-> <<Base(cx, f.endian), csc \o "::" \o Cls(f.name) \o "Common::ValueType">>,
             o |-> NumLength(f, "") \cup NumDefault(f, f.def) \cup OpIf(f.all, "AvailableLengthLimit")]
      [] f.kind = "set" ->
            [b |-> "comms::field::BitmaskValue", a |-> <<Base(cx, f.endian)>>,
             o |-> (IF f.bits # W0 THEN Op("FixedBitLength<" \o WDec(f.bits) \o ">") ELSE Op("FixedLength<" \o WDec(f.minl) \o ">"))
                   \cup SetDefault(f) \cup OpIf(f.all, "AvailableLengthLimit")]
      [] f.kind = "float" -> [b |-> "comms::field::FloatValue", a |-> <<Base(cx, f.endian), f.type>>, o |-> {}]
      [] f.kind = "string" ->
            [b |-> "comms::field::String", a |-> <<Plain(cx)>>,
             o |-> OpIf(f.flen # 0, "SequenceFixedSize<" \o NDec(f.flen) \o ">")
                   \cup PartOp(cx, f, "lenp", "SequenceSerLengthFieldPrefix")
                   \cup (IF f.zterm THEN GTermSuffix0(cx) ELSE {})
                   \cup OpIf(f.detp # "", "SequenceLengthForcingEnabled")]
      [] f.kind = "data" ->
            [b |-> "comms::field::ArrayList", a |-> <<Plain(cx), "std::uint8_t">>,
             o |-> OpIf(f.flen # 0, "SequenceFixedSize<" \o NDec(f.flen) \o ">")
                   \cup PartOp(cx, f, "lenp", "SequenceSerLengthFieldPrefix")
                   \cup OpIf(f.detp # "", "SequenceLengthForcingEnabled")]
      [] f.kind = "list" ->
            [b |-> "comms::field::ArrayList", a |-> <<Plain(cx), Part(cx, f, f.elem)>>,
             o |-> OpIf(f.fcount # 0, "SequenceFixedSize<" \o NDec(f.fcount) \o ">")
                   \cup PartOp(cx, f, "cp", "SequenceSizeFieldPrefix")
                   \cup PartOp(cx, f, "lp", "SequenceSerLengthFieldPrefix")
                   \cup PartOp(cx, f, "elp", IF f.efl THEN "SequenceElemFixedSerLengthFieldPrefix" ELSE "SequenceElemSerLengthFieldPrefix")
                   \cup PartOp(cx, f, "ts", "SequenceTerminationFieldSuffix")
                   \cup OpIf(f.dcp # "", "SequenceSizeForcingEnabled")
                   \cup OpIf(f.dlp # "", "SequenceLengthForcingEnabled")
                   \cup OpIf(f.delp # "", "SequenceElemLengthForcingEnabled")]
      [] f.kind = "bitfield" ->
            [b |-> "comms::field::Bitfield", a |-> <<Base(cx, f.endian), MembersOf(f) \o "::All">>, o |-> VersionMembers(cx, f, ps)]
      [] f.kind = "bundle" ->
            [b |-> "comms::field::Bundle", a |-> <<Plain(cx), MembersOf(f) \o "::All">>,
             o |-> VersionMembers(cx, f, ps)
                   \cup (IF LengthMember(f) = {} THEN {}
                         ELSE Op("RemLengthMemberField<" \o NDec((CHOOSE i \in LengthMember(f) : \A k \in LengthMember(f) : i <= k) - 1) \o ">"))]
      [] f.kind = "variant" ->
            [b |-> "comms::field::Variant", a |-> <<Plain(cx), MembersOf(f) \o "::All">>, o |-> VersionMembers(cx, f, ps)]
      [] f.kind = "optional" ->
            [b |-> "comms::field::Optional", a |-> <<Part(cx, f, f.field)>>,
             o |-> OpIf(f.mode = 1, "ExistsByDefault") \cup OpIf(f.mode = 2, "MissingByDefault")
                   \cup OpIf(f.morf, "MissingOnReadFail") \cup OpIf(f.moi, "MissingOnInvalid")]
      [] f.kind = "ref" -> [b |-> Place(cx, f.ref.xref), a |-> <<>>, o |-> OpIf(f.bits # W0, "FixedBitLength<" \o WDec(f.bits) \o ">")]
\* the wrapper of a member which may be absent
Wrapper(cx, f) ==
    [b |-> "comms::field::Optional", a |-> <<Cls(f.name) \o "Field">>,
     o |-> Op(IF Ex(cx, f.since, f.dep, f.rem) THEN "ExistsByDefault" ELSE "MissingByDefault")
           \cup Op(IF ~f.rem THEN "ExistsSinceVersion<" \o NDec(f.since) \o ">"
                   ELSE IF f.since = 0 THEN "ExistsUntilVersion<" \o NDec(f.dep - 1) \o ">"
                   ELSE "ExistsBetweenVersions<" \o NDec(f.since) \o "," \o NDec(f.dep - 1) \o ">")]

---------------------------------------------------------------------------
(* names given to parts *)
NamesOf(macro, fs) == IF fs = <<>> THEN <<>> ELSE << <<macro, [i \in DOMAIN fs |-> Acc(fs[i].name)]>> >>
AliasesOf(macro, as) == [i \in DOMAIN as |-> <<macro, <<as[i].name>> \o [k \in DOMAIN as[i].path |-> Acc(as[i].path[k])]>>]
BitMacros(f) ==
    LET seq == SortSeq(SetToSeq(DOMAIN f.bitsl), LAMBDA a, b : f.bitsl[a].idx < f.bitsl[b].idx)
        runs == SetUnique(f) /\ \A i \in DOMAIN seq : f.bitsl[seq[i]].idx = i - 1
    IN IF runs THEN << <<"COMMS_BITMASK_BITS_SEQ", seq>> >>
       ELSE << <<"COMMS_BITMASK_BITS", [i \in DOMAIN seq |-> seq[i] \o "=" \o NDec(f.bitsl[seq[i]].idx)]>>, <<"COMMS_BITMASK_BITS_ACCESS", seq>> >>
Macros(f) ==
    CASE f.kind = "set" -> BitMacros(f)
      [] f.kind \in {"bundle", "bitfield"} -> NamesOf("COMMS_FIELD_MEMBERS_NAMES", f.members)
            \o (IF f.kind = "bundle" THEN AliasesOf("COMMS_FIELD_ALIAS", f.aliases) ELSE <<>>)
      [] f.kind = "variant" -> NamesOf("COMMS_VARIANT_MEMBERS_NAMES", f.members)
      [] OTHER -> <<>>
\* what a new object holds
Starts(f) ==
    CASE f.kind = "string" /\ f.def # "" -> <<"str", f.def>>
      [] f.kind = "data" /\ f.def # "" -> <<"data", f.def>>
      [] f.kind = "float" /\ f.def # W0 -> <<"num", f.def>>
      [] f.kind = "variant" /\ WLe(W0, f.defi) /\ WLt(f.defi, WN(Len(f.members))) ->
            <<"member", Acc(f.members[WToInt(f.defi) + 1].name)>>
      [] OTHER -> <<>>

---------------------------------------------------------------------------
(* facts about a field, its parts included *)
Parts(f) == CASE f.kind \in {"bundle", "bitfield", "variant"} -> f.members
              [] f.kind \in {"list", "optional", "string", "data"} ->
                    FoldLeft(LAMBDA a, k : IF k \in DOMAIN f /\ f[k].xref = "" THEN Append(a, f[k]) ELSE a, <<>>,
                             <<"elem", "field", "cp", "lp", "elp", "ts", "lenp">>)
              [] OTHER -> <<>>
RECURSIVE Facts(_, _, _, _, _, _)
Facts(cx, f, sc, csc, ps, forced) ==
    LET wrapped == Wrapped(cx, f, ps)
        cls == Cls(f.name)
        at == sc \o "::" \o cls \o (IF wrapped THEN "Field" ELSE "")
        com == csc \o "::" \o cls \o "Common"
        d == Definition(cx, f, csc, ps)
        parts == Parts(f)
        in == sc \o "::" \o MembersOf(f)
        cin == csc \o "::" \o MembersOf(f) \o "Common"
    IN << <<"defs", at, [d EXCEPT !.o = @ \cup General(f, forced)]>>,
          <<"bits", at, Macros(f)>>, <<"ctor", at, Starts(f)>>, <<"shown", at, <<f>> >> >>
       \o (IF wrapped THEN << <<"defs", sc \o "::" \o cls, Wrapper(cx, f)>>, <<"shown", sc \o "::" \o cls, <<[kind |-> "wrapper", name |-> f.name, disp |-> f.disp]>> >> >>
           ELSE <<>>)
       \o (IF f.kind = "ref" THEN << <<"defs", com, [b |-> Place(cx, f.ref.xref) \o "Common", a |-> <<>>, o |-> {}]>> >> ELSE <<>>)
       \o (IF HasMembers(f) THEN << <<"alls", in \o "::All", [i \in DOMAIN f.members |-> Cls(f.members[i].name)]>> >> ELSE <<>>)
       \o (IF f.kind = "enum" THEN << <<"enums", com \o "::ValueType", <<f>>>>, <<"values", at, <<f, com>>>> >>
           ELSE IF f.kind \in {"int", "float", "set"} THEN << <<"values", at, <<f, com>>>> >> ELSE <<>>)
       \o FoldLeft(LAMBDA a, m : a \o Facts(cx, m, in, cin, Max({ps, f.since}), {}), <<>>, parts)

\* facts about the other elements
MessageFacts(cx, m, at) ==
    LET cls == Cls(m.name)
        sc == at \o "::message::" \o cls
        sum(F(_)) == FoldLeft(LAMBDA a, f : LAdd(a, F(f)), W0, m.fields)
        low == sum(LAMBDA f : LowLen(cx, f, m.since))
        top == sum(LAMBDA f : TopLen(cx, f))
        \* the length of variants is computed by code of their own
        plain == \A i \in DOMAIN m.fields : ~OwnLength(m.fields[i])
        id == IF WLt(WMaxI, m.id) THEN WSub(m.id, WU64) ELSE m.id
    IN << <<"defs", sc, [b |-> "comms::MessageBase", a |-> <<"TMsgBase">>,
                         o |-> Op("StaticNumIdImpl<" \o WDec(id) \o ">") \cup Op("MsgType<" \o cls \o ">")
                               \cup Op("FieldsImpl<" \o cls \o "Fields::All>") \cup OpIf(m.foi, "FailOnInvalid<>")]>>,
          <<"shown", sc, <<m>> >>,
          <<"alls", sc \o "Fields::All", [i \in DOMAIN m.fields |-> Cls(m.fields[i].name)]>>,
          <<"bits", sc, NamesOf("COMMS_MSG_FIELDS_NAMES", m.fields) \o AliasesOf("COMMS_MSG_FIELD_ALIAS", m.aliases)>>,
          <<"asserts", sc, IF ~plain THEN <<>> ELSE << <<"MsgMinLen", WDec(low)>> >> \o (IF top = LMax THEN <<>> ELSE << <<"MsgMaxLen", WDec(top)>> >>)>> >>
       \o FoldLeft(LAMBDA a, f : a \o Facts(cx, f, sc \o "Fields", sc \o "FieldsCommon", m.since, {}), <<>>, m.fields)
InterfaceFacts(cx, m, at) ==
    LET cls == Cls(m.name)
        sc == at \o "::" \o cls
        vs == { i \in DOMAIN m.fields : m.fields[i].sem = SemTypes["version"] }
        \* fields of interfaces are used with the default options
        fix(f) == IF f[1] = "defs" /\ StartsWith(f[2], sc \o "Fields::") /\ f[3].b \notin {"comms::field::Optional"}
                     /\ ~StartsWith(f[3].b, "comms::field::") THEN <<f[1], f[2], [f[3] EXCEPT !.a = <<cx.main \o "::options::DefaultOptions">>]>> ELSE f
        fs == FoldLeft(LAMBDA a, f : a \o Facts(cx, f, sc \o "Fields", sc \o "FieldsCommon", 0, {}), <<>>, m.fields)
    IN << <<"defs", sc, [b |-> "comms::Message", a |-> <<>>,
                         o |-> Op(IF cx.little = 1 THEN "BigEndian" ELSE "LittleEndian") \cup Op("MsgIdType<" \o at \o "::MsgId>")
                               \cup OpIf(m.fields # <<>>, "ExtraTransportFields<" \o cls \o "Fields::All>")
                               \cup (IF vs = {} THEN {}
                                     ELSE Op("VersionInExtraTransportFields<" \o NDec((CHOOSE i \in vs : \A k \in vs : i <= k) - 1) \o ">"))]>>,
          <<"bits", sc, NamesOf("COMMS_MSG_TRANSPORT_FIELDS_NAMES", m.fields) \o AliasesOf("COMMS_MSG_TRANSPORT_FIELD_ALIAS", m.aliases)>> >>
       \o (IF m.fields = <<>> THEN <<>> ELSE << <<"alls", sc \o "Fields::All", [i \in DOMAIN m.fields |-> Cls(m.fields[i].name)]>> >>)
       \o [i \in DOMAIN fs |-> fix(fs[i])]

---------------------------------------------------------------------------
(* frames *)
ForcedOf(l) == (IF l.kind = "sync" THEN {"fail"} ELSE {}) \cup (IF l.kind = "value" /\ l.pseudo THEN {"pseudo"} ELSE {})
Forced(l) == FoldLeft(LAMBDA a, x : a \o "," \o x, "",
                      (IF l.kind = "value" /\ l.pseudo THEN <<"comms::option::def::EmptySerialization">> ELSE <<>>)
                      \o (IF l.kind = "sync" THEN <<"comms::option::def::FailOnInvalid<comms::ErrorStatus::ProtocolError>">> ELSE <<>>))
LayerPart(cx, l, f) == IF f.xref # "" THEN Place(cx, f.xref) ELSE MembersOf(l) \o "::" \o Cls(f.name)
FrameFieldScope(cx, l) == LayerPart(cx, l, l.field)
    \o (IF l.field.xref # "" /\ Forced(l) # "" THEN "<" \o SubSeq(Forced(l), 2, Len(Forced(l))) \o ">" ELSE "")
Suffix(f, l, dsl) ==
    LET pay == KindAt(f.layers, "payload")
        i == CHOOSE k \in DOMAIN f.layers : f.layers[k].name = l.name
    IN i > pay
AlgNames == <<"", "BasicSum", "Crc_CCITT", "Crc_16", "Crc_32", "BasicXor">>
Alg(cx, l) ==
    IF l.algn # "" THEN cx.main \o "::frame::checksum::" \o Cls(l.algn)
    ELSE LET a == AlgNames[l.alg + 1]
         IN "comms::frame::checksum::" \o a \o (IF a \in {"BasicSum", "BasicXor"} THEN "<" \o FrameFieldScope(cx, l) \o "::ValueType>" ELSE "")
LayerDef(cx, f, l, prev, dsl) ==
    CASE l.kind = "payload" -> [b |-> "comms::frame::MsgDataLayer", a |-> <<>>, o |-> Op("FieldType<" \o MembersOf(l) \o "::Field>")]
      [] l.kind = "id" -> [b |-> "comms::frame::MsgIdLayer", a |-> <<FrameFieldScope(cx, l), "TMessage", "TAllMessages", prev>>, o |-> {}]
      [] l.kind = "size" -> [b |-> "comms::frame::MsgSizeLayer", a |-> <<FrameFieldScope(cx, l), prev>>, o |-> {}]
      [] l.kind = "sync" ->
            [b |-> "comms::frame::Sync" \o (IF Suffix(f, l, dsl) THEN "Suffix" ELSE "Prefix") \o "Layer", a |-> <<FrameFieldScope(cx, l), prev>>,
             o |-> (IF ~l.seek THEN {} ELSE Op("FrameLayerSeekField<" \o (IF "escf" \in DOMAIN l THEN LayerPart(cx, l, l.escf) ELSE "") \o ">"))
                   \cup OpIf(l.vbr, "FrameLayerVerifyBeforeRead")]
      [] l.kind = "value" ->
            [b |-> "comms::frame::TransportValueLayer", a |-> <<FrameFieldScope(cx, l), WDec(l.fidx), prev>>, o |-> OpIf(l.pseudo, "PseudoValue")]
      [] l.kind = "checksum" ->
            [b |-> "comms::frame::Checksum" \o (IF l.until # "" THEN "Prefix" ELSE "") \o "Layer",
             a |-> <<FrameFieldScope(cx, l), Alg(cx, l), prev>>, o |-> OpIf(l.vbr, "FrameLayerVerifyBeforeRead")]
      [] l.kind = "custom" ->
            [b |-> cx.main \o "::frame::layer::" \o Cls(l.name),
             a |-> <<FrameFieldScope(cx, l)>> \o (IF l.sem = "id" THEN <<"TMessage", "TAllMessages">> ELSE <<>>) \o <<prev>>, o |-> {}]
LayerFacts(cx, l, sc, csc) ==
    LET in == sc \o "::" \o MembersOf(l)
        cin == csc \o "::" \o MembersOf(l) \o "Common"
        own(k, forced) == IF k \in DOMAIN l /\ l[k].xref = "" THEN Facts(cx, l[k], in, cin, 0, forced) ELSE <<>>
    IN IF l.kind = "payload" THEN << <<"defs", in \o "::Field", [b |-> "comms::field::ArrayList", a |-> <<Plain(cx), "std::uint8_t">>, o |-> {}]>>,
                                        <<"shown", in \o "::Field", <<[kind |-> "payload", name |-> l.name, disp |-> ""]>> >> >>
       ELSE own("field", ForcedOf(l)) \o own("escf", {})
FrameFacts(cx, f, at) ==
    LET cls == Cls(f.name)
        sc == at \o "::frame::" \o cls
        named == \E i \in DOMAIN f.layers : LET l == f.layers[i] IN l.kind = "id" \/ (l.kind = "custom" /\ l.sem = "id")
    IN << <<"defs", sc, [b |-> cls \o "Layers<TOpt>::Stack" \o (IF named THEN "<TMessage,TAllMessages>" ELSE ""), a |-> <<>>, o |-> {}]>> >>
       \o FoldLeft(LAMBDA a, l : a \o LayerFacts(cx, l, sc \o "Layers", sc \o "LayersCommon"), <<>>, f.layers)
\* the layers are nested so that their fields appear in the order of the
\* description, and what is computed over a range of layers wraps that range
WrongLayers(cx, f, at, obs, dsl) ==
    LET sc == at \o "::frame::" \o Cls(f.name) \o "Layers"
        seen == At(obs.layers, sc, <<>>)
        n == Len(f.layers)
        idx(c) == { i \in DOMAIN f.layers : Cls(f.layers[i].name) = c }
        pay == KindAt(f.layers, "payload")
    IN IF Len(seen) # n + 1 \/ \E k \in 1..n : idx(seen[k][1]) = {} THEN {<<"layers of " \o sc, ToString(seen)>>}
       ELSE LET ord == [k \in 1..n |-> CHOOSE i \in idx(seen[k][1]) : TRUE]
                wire == FoldLeft(LAMBDA a, i : IF i > pay THEN Append(a, i) ELSE <<i>> \o a, <<>>, ord)
                within(k) == { ord[x] : x \in 1..(k - 1) }
                \* position of the first layer which is covered
                cover(l) == IF l.kind = "checksum" /\ l.from # "" THEN LayerAt(f.layers, l.from)
                            ELSE IF l.kind = "custom" /\ l.sem = "checksum" /\ l.from # "" THEN LayerAt(f.layers, l.from)
                            ELSE IF l.kind = "sync" /\ l.from # "" THEN LayerAt(f.layers, l.from) ELSE 0
                \* a layer after others which follow the payload wraps what they wrap, too
                least(x) == LET own == { cover(f.layers[m]) : m \in (IF x > pay THEN pay + 1 ELSE x)..x } \ {0} IN CHOOSE z \in own : \A u \in own : z <= u
            IN Wrong("order of layers of " \o sc, wire = [k \in 1..n |-> k], ord)
               \cup Wrong("names of layers of " \o sc,
                          At(obs.bits, at \o "::frame::" \o Cls(f.name), <<>>)
                          = << <<"COMMS_FRAME_LAYERS_NAMES", [k \in 1..n |-> Acc(f.layers[ord[k]].name)]>> >>,
                          At(obs.bits, at \o "::frame::" \o Cls(f.name), <<>>))
               \cup Wrong("stack of " \o sc, seen[n + 1][1] = "Stack" /\ seen[n + 1][2].b = seen[n][1], seen[n + 1])
               \cup UNION { LET l == f.layers[ord[k]]
                                d == LayerDef(cx, f, l, IF k = 1 THEN "" ELSE seen[k - 1][1], dsl)
                                e == seen[k][2]
                            IN Wrong("layer " \o seen[k][1] \o " of " \o sc, e.b = d.b /\ e.a = d.a /\ Rng(e.o) = d.o, <<e, d>>)
                               \cup Wrong("range of layer " \o seen[k][1] \o " of " \o sc,
                                          cover(l) = 0 \/ { i \in within(k) : i <= pay } = least(ord[k])..pay, <<ord, cover(l)>>)
                            : k \in 1..n }

---------------------------------------------------------------------------
(* valid values *)
NoValid == [vals |-> <<>>, bits |-> <<>>, names |-> <<>>, inv |-> FALSE, vs |-> FALSE, ver |-> FALSE, other |-> "false"]
\* a union of ranges in normal form
Normal(rs, step) ==
    FoldLeft(LAMBDA a, r : IF a = <<>> THEN <<r>>
                           ELSE LET z == a[Len(a)] IN
                                IF WLe(r[1], IF step THEN WAdd(z[2], W1) ELSE z[2])
                                THEN SubSeq(a, 1, Len(a) - 1) \o << <<z[1], WMax(z[2], r[2])>> >> ELSE Append(a, r),
             <<>>, SortSeq(rs, LAMBDA a, b : WLt(a[1], b[1])))
\* the versions of the remote side in which the field is in use
Versions(cx, f) == { k \in Rem(cx)..Ver(cx) : f.since <= k /\ k < f.dep }
\* ranges <<low, high, since, dep>> which are declared, and whether the version matters
WrongRanges(cx, f, at, what, obs, declared, all, checks, step) ==
    LET v == At(obs.valid, at, NoValid)
        seen(k) == LET s == SelectSeq(v.vals, LAMBDA x : x[1] <= k /\ k < x[2]) IN [i \in DOMAIN s |-> <<s[i][3], s[i][4]>>]
        want(k) == LET s == SelectSeq(declared, LAMBDA x : ~checks \/ (x[3] <= k /\ k < x[4])) IN [i \in DOMAIN s |-> <<s[i][1], s[i][2]>>]
        bad == { k \in Versions(cx, f) : Normal(seen(k), step) # Normal(want(k), step) }
    IN IF all = 0 THEN Wrong("valid values of " \o at, v = NoValid, v)
       ELSE IF declared = <<>> THEN {}
       ELSE Wrong(what \o " of " \o at, bad = {}, <<bad, v.vals, declared>>)
            \cup Wrong("other values of " \o at, v.inv \/ \E i \in DOMAIN v.vals : v.vals[i][1] = 0 /\ v.vals[i][2] = NoDep, v)
            \cup Wrong("result of valid() of " \o at, v.other = "false", v.other)
            \cup Wrong("version of " \o at, ~v.ver \/ v.vs \/ \A k \in Versions(cx, f) : Normal(seen(k), step) = Normal(seen(Ver(cx)), step), v)
WrongValues(cx, at, f, com, obs) ==
    LET checks == cx.vd /\ f.vcv
        given(rs) == LET s == SelectSeq(rs, LAMBDA r : Ex(cx, r.since, r.dep, TRUE)) IN [i \in DOMAIN s |-> <<s[i].min, s[i].max, s[i].since, s[i].dep>>]
    IN IF f.kind \in {"int", "float"}
       THEN WrongRanges(cx, f, at, "valid values", obs, given(f.ranges), Len(f.ranges), checks, f.kind = "int")
       ELSE IF f.kind = "enum"
       THEN LET v == At(obs.valid, at, NoValid)
                names == SetToSeq({ x \in DOMAIN f.vals : Ex(cx, f.vals[x].since, f.vals[x].dep, ~checks) })
                decl == [i \in DOMAIN names |-> LET e == f.vals[names[i]] IN <<e.val, e.val, e.since, e.dep>>]
                listed == [i \in DOMAIN v.names |-> IF v.names[i] \in DOMAIN f.vals THEN LET w == f.vals[v.names[i]].val IN <<0, NoDep, w, w>>
                                                    ELSE <<0, NoDep, WNan, WNan>>]
                o2 == IF v.names = <<>> THEN obs ELSE [obs EXCEPT !.valid[at].vals = @ \o listed]
            IN WrongRanges(cx, f, at, "valid values", o2, decl, 1, checks, TRUE)
       ELSE \* the bits of a set: which ones are reserved
            LET v == At(obs.valid, at, NoValid)
                live(k, i) == { x \in BitsAt(f, i) : ~checks \/ (f.bitsl[x].since <= k /\ k < f.bitsl[x].dep) }
                want(k) == { i \in 0..(SetWidth(f) - 1) : \A x \in live(k, i) : f.bitsl[x].res }
                on(k) == SelectSeq(v.bits, LAMBDA b : b[1] <= k /\ k < b[2])
                seen(k) == { i \in 0..(SetWidth(f) - 1) : \E b \in Rng(on(k)) : Bit(b[3], i) }
                \* values of the bits which are reserved in all versions
                value(i) == IF BitsAt(f, i) = {} THEN f.resb ELSE \E x \in BitsAt(f, i) : f.bitsl[x].resv
                always == { i \in 0..(SetWidth(f) - 1) : ~checks \/ \A x \in BitsAt(f, i) : f.bitsl[x].since <= f.since /\ f.bitsl[x].dep >= f.dep }
                badv == { i \in always : \E k \in Versions(cx, f) : i \in want(k) /\ \E b \in Rng(on(k)) : Bit(b[3], i) /\ Bit(b[4], i) # value(i) }
                bad == { k \in Versions(cx, f) : want(k) # seen(k) }
            IN Wrong("reserved bits of " \o at, bad = {}, <<bad, v.bits, f.bitsl>>)
               \cup Wrong("values of reserved bits of " \o at, badv = {}, <<badv, v.bits>>)
               \cup Wrong("version of " \o at, ~v.ver \/ v.vs \/ \A k \in Versions(cx, f) : seen(k) = seen(Ver(cx)), v)
\* enumerators and special values which exist
EnumMarks == {"FirstValue", "LastValue", "ValuesLimit", "firstValue", "lastValue", "valuesLimit"}
WrongEnum(cx, at, f, obs) ==
    IF at \notin DOMAIN obs.enums
    THEN Wrong("enumerators of " \o at, f.sem = SemTypes["messageid"] /\ at \in DOMAIN obs.names, "none")
    ELSE LET e == obs.enums[at]
             seen == SelectSeq(e.v, LAMBDA x : x[1] \notin EnumMarks)
             want == EnumItems(cx.st, cx.i, cx.o, f)
             w2 == SelectSeq(want, LAMBDA x : x[1] \notin EnumMarks)
         IN Wrong("enumerators of " \o at, MultiSet(seen) = MultiSet(w2), <<seen, w2>>)
            \cup Wrong("type of " \o at, e.t = CppInt(f.type, f.maxl), e.t)
WrongSpecials(cx, com, f, obs) ==
    LET seen == At(obs.specials, com, <<>>)
        want == { x \in DOMAIN f.specials : Ex(cx, f.specials[x].since, f.specials[x].dep, TRUE) }
        names == [i \in DOMAIN seen |-> seen[i][1]]
    IN Wrong("special values of " \o com, Len(names) = Cardinality(Rng(names)) /\ Rng(names) = { Cls(x) : x \in want }, <<names, want>>)
       \cup UNION { LET xs == { x \in want : Cls(x) = seen[i][1] } IN
                    Wrong("special value " \o seen[i][1] \o " of " \o com,
                          xs = {} \/ seen[i][2] = Unsigned(f, f.specials[CHOOSE x \in xs : TRUE].val), seen[i])
                    : i \in DOMAIN seen }

---------------------------------------------------------------------------
(* judging *)
\* the order of names matters unless each comes with its number
Sorted(ms) == [i \in DOMAIN ms |-> IF ms[i][1] \in {"COMMS_BITMASK_BITS", "COMMS_BITMASK_BITS_ACCESS"} THEN <<ms[i][1], Rng(ms[i][2])>> ELSE ms[i]]
NoDef == [b |-> "", a |-> <<>>, o |-> <<>>]
WrongFact(cx, x, obs) ==
    CASE x[1] = "defs" -> LET d == At(obs.defs, x[2], NoDef) IN
                          Wrong("definition of " \o x[2], d.b = x[3].b /\ d.a = x[3].a /\ Rng(d.o) = x[3].o /\ Len(d.o) = Cardinality(Rng(d.o)), <<d, x[3]>>)
      [] x[1] = "alls" -> Wrong("members of " \o x[2], x[2] \in DOMAIN obs.alls /\ obs.alls[x[2]] = x[3], <<At(obs.alls, x[2], <<>>), x[3]>>)
      [] x[1] = "bits" -> LET b == At(obs.bits, x[2], <<>>) IN Wrong("names in " \o x[2], MultiSet(Sorted(b)) = MultiSet(Sorted(x[3])), <<b, x[3]>>)
      [] x[1] = "ctor" -> LET c == At(obs.ctor, x[2], <<>>) IN Wrong("default value of " \o x[2], c = x[3], <<c, x[3]>>)
      [] x[1] = "asserts" -> LET c == At(obs.asserts, x[2], <<>>) IN Wrong("length of " \o x[2], c = x[3], <<c, x[3]>>)
      [] x[1] = "enums" -> WrongEnum(cx, x[2], x[3][1], obs)
      [] x[1] = "values" -> WrongValues(cx, x[2], x[3][1], x[3][2], obs)
                            \cup (IF x[3][1].kind \in {"int", "float"} THEN WrongSpecials(cx, x[3][2], x[3][1], obs) ELSE {})
      [] OTHER -> {}
UnitFacts(cx, u, ns) ==
    LET at == Scope(<<cx.main>> \o u.path)
    IN CASE u.u = "msg" -> MessageFacts(cx, ns.msgs[u.name], at)
         [] u.u = "iface" -> InterfaceFacts(cx, ns.ifaces[u.name], at)
         [] u.u = "frame" -> FrameFacts(cx, ns.frames[u.name], at)
         [] u.u = "field" -> Facts(cx, ns.fields[u.name], at \o "::field", at \o "::field", 0, {})
         [] OTHER -> <<>>
WrongDefinitions(st, u, o, obs, refs) ==
    LET cx == Around(st, u.s, o)
        ns == NsOf(st, u)
        fs == UnitFacts(cx, u, ns)
    IN UNION { WrongFact(cx, fs[i], obs) : i \in DOMAIN fs }
       \cup (IF u.u = "frame" THEN WrongLayers(cx, ns.frames[u.name], Scope(<<cx.main>> \o u.path), obs, st.schemas[u.s].dsl) ELSE {})
\* the part of it which depends on versions: enumerators, values, conditions
Conditional(x) == \E p \in {"ExistsBetweenVersions", "ExistsSinceVersion", "ExistsUntilVersion", "ExistsByDefault", "MissingByDefault",
                            "HasVersionDependentMembers"} : StartsWith(x, "comms::option::def::" \o p)
WrongVersion(cx, x, obs) ==
    CASE x[1] \in {"enums", "values", "asserts"} -> WrongFact(cx, x, obs)
      [] x[1] = "defs" -> LET d == At(obs.defs, x[2], NoDef)
                              want == { y \in x[3].o : Conditional(y) }
                          IN Wrong("version conditions of " \o x[2], { y \in Rng(d.o) : Conditional(y) } = want /\ d.b # "", <<d, x[3]>>)
      [] OTHER -> {}
WrongVersions(st, u, o, obs, refs) ==
    LET cx == Around(st, u.s, o)
        fs == UnitFacts(cx, u, NsOf(st, u))
    IN UNION { WrongVersion(cx, fs[i], obs) : i \in DOMAIN fs }
=============================================================================
