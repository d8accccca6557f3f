-------------------------------- MODULE Gen --------------------------------
(* What a generator run has to produce for a protocol: a function of the    *)
(* protocol (the state Protocol.tla reaches) and of the options of the run. *)
(*                                                                          *)
(* Options o: ns - namespace overrides <<schema or "", namespace>> in order *)
(*   force - schema version (-1: as the schema says)   minrem - the minimal *)
(*   remote version   vindep - no version dependency    bundles - extra     *)
(*   bundles <<name, messages>>   maininopts - main namespace in options    *)
EXTENDS Project

---------------------------------------------------------------------------
(* text *)
UpperOf == [l \in Rng(Lower) |-> Upper[CHOOSE i \in DOMAIN Lower : Lower[i] = l]]
Cls(n) == IF n = "" THEN "" ELSE LET h == SubSeq(n, 1, 1) IN (IF h \in DOMAIN UpperOf THEN UpperOf[h] ELSE h) \o SubSeq(n, 2, Len(n))
Acc(n) == First(n) \o SubSeq(n, 2, Len(n))
Join(parts, sep) == FoldLeft(LAMBDA a, x : IF a = "" THEN x ELSE a \o sep \o x, "", parts)
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Digits2(n) == Digit[(n \div 10) + 1] \o Digit[(n % 10) + 1]
\* the decimal digits of a wide integer
RECURSIVE WDigits(_)
WDigits(a) ==
    IF a[1] = 0 /\ a[2] = 0 /\ a[3] < 100 THEN IF a[3] < 10 THEN Digit[a[3] + 1] ELSE Digits2(a[3])
    ELSE LET h == a[1] \div 100
             m == (a[1] % 100) * WB + a[2]
             l == (m % 100) * WB + a[3]
         IN WDigits(<<h, m \div 100, l \div 100>>) \o Digits2(l % 100)
WDec(a) == IF WLt(a, W0) THEN "-" \o WDigits(WNeg(a)) ELSE WDigits(a)
NDec(n) == ToString(n)

---------------------------------------------------------------------------
(* namespaces *)
NsFor(o, k) == { i \in DOMAIN o.ns : o.ns[i][1] = k }
NsGiven(o, k) == o.ns[CHOOSE i \in NsFor(o, k) : \A x \in NsFor(o, k) : x <= i][2]
MainNs(st, i, o) ==
    IF i = Len(st.schemas) /\ NsFor(o, "") # {} THEN NsGiven(o, "")
    ELSE IF NsFor(o, st.schemas[i].name) # {} THEN NsGiven(o, st.schemas[i].name)
    ELSE st.schemas[i].name
Scope(parts) == Join(parts, "::")
Header(parts) == "include/" \o Join(parts, "/") \o ".h"

\* everything of the namespaces nss: [path, ns], the enclosing ones first
RECURSIVE Spaces(_, _)
Spaces(nss, path) ==
    FoldLeft(LAMBDA a, x : LET p == IF x = "" THEN path ELSE Append(path, x)
                           IN a \o <<[path |-> p, ns |-> nss[x]]>> \o Spaces(nss[x].nss, p),
             <<>>, SetToSeq(DOMAIN nss))

---------------------------------------------------------------------------
(* what is needed: messages, interfaces and frames, and the fields reachable from them *)
FieldKids(f) ==
    (IF "members" \in DOMAIN f THEN f.members ELSE <<>>)
    \o FoldLeft(LAMBDA a, k : IF k \in DOMAIN f THEN Append(a, f[k]) ELSE a, <<>>,
                <<"lenp", "elem", "cp", "lp", "elp", "ts", "ref", "field">>)
RECURSIVE XRefs(_)
XRefs(f) == LET ks == FieldKids(f)
            IN (IF f.xref = "" THEN {} ELSE {f.xref}) \cup UNION { XRefs(ks[i]) : i \in DOMAIN ks }
XRefsIn(fs) == UNION { XRefs(fs[i]) : i \in DOMAIN fs }
LayerRefs(l) == UNION { XRefs(l[k]) : k \in {"field", "escf"} \cap DOMAIN l }
NsRefs(ns) ==
    UNION { XRefsIn(ns.msgs[x].fields) : x \in DOMAIN ns.msgs }
    \cup UNION { XRefsIn(ns.ifaces[x].fields) : x \in DOMAIN ns.ifaces }
    \cup UNION { UNION { LayerRefs(ns.frames[x].layers[i]) : i \in DOMAIN ns.frames[x].layers } : x \in DOMAIN ns.frames }
    \cup UNION { XRefs(ns.fields[x]) : x \in { y \in DOMAIN ns.fields : ns.fields[y].fgen } }
\* the fields messages leave out are not generated for their sake
Needed(st) == UNION { UNION { NsRefs(sp[i].ns) : i \in DOMAIN sp } : sp \in { Spaces(st.schemas[k].nss, <<>>) : k \in DOMAIN st.schemas } }

\* the last schema has an interface: a plain one where the documents define none
DefaultIface == [BlankIface EXCEPT !.name = "Message"]
AnyIface(s) == LET sp == Spaces(s.nss, <<>>) IN \E i \in DOMAIN sp : sp[i].ns.ifaces # EmptyMap
WithIface(st) ==
    LET k == Len(st.schemas)
        s == st.schemas[k]
        base == IF "" \in DOMAIN s.nss THEN s.nss[""] ELSE BlankNs
    IN IF AnyIface(s) THEN st
       ELSE [st EXCEPT !.schemas[k].nss = ("" :> [base EXCEPT !.ifaces = "Message" :> DefaultIface]) @@ @]

RECURSIVE HasCode(_, _)
HasCode(ns, refs) ==
    \/ ns.frames # EmptyMap \/ ns.msgs # EmptyMap \/ ns.ifaces # EmptyMap
    \/ \E x \in DOMAIN ns.fields : ns.fields[x].xref \in refs
    \/ \E x \in DOMAIN ns.nss : HasCode(ns.nss[x], refs)
RECURSIVE HasFieldCode(_, _)
HasFieldCode(ns, refs) ==
    \/ ns.frames # EmptyMap
    \/ \E x \in DOMAIN ns.msgs : ns.msgs[x].fields # <<>>
    \/ \E x \in DOMAIN ns.ifaces : ns.ifaces[x].fields # <<>>
    \/ \E x \in DOMAIN ns.fields : ns.fields[x].xref \in refs
    \/ \E x \in DOMAIN ns.nss : HasFieldCode(ns.nss[x], refs)
RECURSIVE HasFrames(_)
HasFrames(ns) == ns.frames # EmptyMap \/ \E x \in DOMAIN ns.nss : HasFrames(ns.nss[x])
RECURSIVE HasMsgs(_)
HasMsgs(ns) == ns.msgs # EmptyMap \/ \E x \in DOMAIN ns.nss : HasMsgs(ns.nss[x])

---------------------------------------------------------------------------
(* the work: one unit per schema, namespace and element *)
Units(st, refs) ==
    LET n == Len(st.schemas)
        of(k) == LET s == st.schemas[k]
                     sp == Spaces(s.nss, <<>>)
                     unit(u, p, x) == [u |-> u, s |-> k, path |-> p, name |-> x]
                     elems(a, e) ==
                        a \o <<unit("ns", e.path, "")>>
                        \o [i \in 1..Cardinality(DOMAIN e.ns.msgs) |-> unit("msg", e.path, SetToSeq(DOMAIN e.ns.msgs)[i])]
                        \o [i \in 1..Cardinality(DOMAIN e.ns.ifaces) |-> unit("iface", e.path, SetToSeq(DOMAIN e.ns.ifaces)[i])]
                        \o [i \in 1..Cardinality(DOMAIN e.ns.frames) |-> unit("frame", e.path, SetToSeq(DOMAIN e.ns.frames)[i])]
                        \o LET fs == SetToSeq({ x \in DOMAIN e.ns.fields : e.ns.fields[x].xref \in refs })
                           IN [i \in DOMAIN fs |-> unit("field", e.path, fs[i])]
                 IN FoldLeft(elems, <<unit("schema", <<>>, "")>>, sp)
    IN FoldLeft(LAMBDA a, k : a \o of(k), <<>>, [k \in 1..n |-> k])
NsOf(st, u) == NsAt(st.schemas[u.s].nss, IF u.path = <<>> THEN <<"">> ELSE u.path)

---------------------------------------------------------------------------
(* message bundles *)
Sides == <<"", "ClientInput", "ServerInput">>
\* groups of messages: all, those of a platform, those of an extra bundle; each also by the receiving side
Groups(st, u, o) ==
    LET ps == SetToSeq(DOMAIN st.schemas[u.s].platforms)
    IN <<[k |-> "all", n |-> ""]>> \o [i \in DOMAIN ps |-> [k |-> "platform", n |-> ps[i]]]
       \o [i \in DOMAIN o.bundles |-> [k |-> "bundle", n |-> o.bundles[i][1], i |-> i]]
BundleName(g, side) == IF g.k = "all" THEN (IF side = "" THEN "AllMessages" ELSE side \o "Messages") ELSE Cls(g.n) \o side \o "Messages"
DispatchName(g, side) == "Dispatch" \o Cls(g.n) \o side \o "Message"
\* the message a bundle file names, relative to the last schema or with its schema
BundleXRef(st, path) == IF path[1] = "@" THEN "@" \o Join(Tail(path), ".") ELSE "@" \o st.schemas[Len(st.schemas)].name \o "." \o Join(path, ".")
Belongs(st, m, g, side, o) ==
    /\ CASE g.k = "all" -> TRUE
         [] g.k = "platform" -> m.platforms = EmptyMap \/ g.n \in DOMAIN m.platforms
         [] g.k = "bundle" -> \E i \in DOMAIN o.bundles[g.i][2] : BundleXRef(st, o.bundles[g.i][2][i]) = m.xref
    /\ side = "ClientInput" => m.sender # Senders["client"]
    /\ side = "ServerInput" => m.sender # Senders["server"]
\* the messages below a namespace with their places, by id and order
RECURSIVE MsgsBelow(_, _)
MsgsBelow(ns, path) ==
    FoldLeft(LAMBDA a, x : a \o MsgsBelow(ns.nss[x], Append(path, x)),
             LET ms == SetToSeq(DOMAIN ns.msgs) IN [i \in DOMAIN ms |-> [path |-> path, m |-> ns.msgs[ms[i]]]],
             SetToSeq(DOMAIN ns.nss))
ById(ms) == SortSeq(ms, LAMBDA a, b : a # b /\ MsgLe(a.m, b.m) /\ ~(MsgLe(b.m, a.m)))
MsgScope(main, e) == Scope(<<main>> \o e.path \o <<"message", Cls(e.m.name)>>)
MsgFile(main, e) == Join(<<main>> \o e.path \o <<"message", Cls(e.m.name)>>, "/") \o ".h"
\* ids with the messages which have them, in order
IdGroups(ms) ==
    LET ids == FoldLeft(LAMBDA a, e : IF a # <<>> /\ a[Len(a)] = e.m.id THEN a ELSE Append(a, e.m.id), <<>>, ms)
    IN [i \in DOMAIN ids |-> [id |-> ids[i], ms |-> SelectSeq(ms, LAMBDA e : e.m.id = ids[i])]]
Cases(main, ms) ==
    LET gs == IdGroups(ms) IN
    [i \in DOMAIN gs |-> <<WDec(gs[i].id), [k \in DOMAIN gs[i].ms |-> <<NDec(k - 1), MsgScope(main, gs[i].ms[k])>>]>>]

---------------------------------------------------------------------------
(* versions *)
SchemaVersion(st, i, o) == IF i = Len(st.schemas) /\ o.force >= 0 THEN o.force ELSE st.schemas[i].version
MinRemote(st, i, o) == IF i = Len(st.schemas) THEN o.minrem ELSE 0
\* what of an element is there in the selected version, for some supported remote
Exists(st, i, o, since, dep, rem) ==
    /\ SchemaVersion(st, i, o) >= since
    /\ ~(rem /\ dep <= MinRemote(st, i, o))
Optional(st, i, o, since, dep, rem) ==
    \/ MinRemote(st, i, o) < since
    \/ rem /\ dep <= SchemaVersion(st, i, o)

---------------------------------------------------------------------------
(* message ids *)
CppInt(t, maxl) ==
    CASE t = "int8" -> "std::int8_t" [] t = "uint8" -> "std::uint8_t"
      [] t = "int16" -> "std::int16_t" [] t = "uint16" -> "std::uint16_t"
      [] t = "int32" -> "std::int32_t" [] t = "uint32" -> "std::uint32_t"
      [] t = "int64" -> "std::int64_t" [] t = "uint64" -> "std::uint64_t"
      [] t = "intvar" -> IF WLe(maxl, WN(2)) THEN "std::int16_t" ELSE IF WLe(maxl, WN(4)) THEN "std::int32_t" ELSE "std::int64_t"
      [] t = "uintvar" -> IF WLe(maxl, WN(2)) THEN "std::uint16_t" ELSE IF WLe(maxl, WN(4)) THEN "std::uint32_t" ELSE "std::uint64_t"
\* enumerators of an enum field: those which exist, by value, then the markers
EnumRevs(f) == f.rev
EnumItems(st, i, o, f) ==
    LET there == SelectSeq(f.rev, LAMBDA r : Exists(st, i, o, f.vals[r.name].since, f.vals[r.name].dep, FALSE))
        low == First(f.rev[1].name) = SubSeq(f.rev[1].name, 1, 1)
        mark(n) == IF low THEN Acc(n) ELSE n
        last == f.rev[Len(f.rev)].val
    IN [k \in DOMAIN there |-> <<there[k].name, WDec(there[k].val)>>]
       \o <<<<mark("FirstValue"), WDec(f.rev[1].val)>>, <<mark("LastValue"), WDec(last)>>>>
RECURSIVE IdFields(_)
IdFields(ns) ==
    FoldLeft(LAMBDA a, x : a \o IdFields(ns.nss[x]),
             LET fs == SetToSeq({ x \in DOMAIN ns.fields : ns.fields[x].sem = SemTypes["messageid"] })
             IN [k \in DOMAIN fs |-> ns.fields[fs[k]]],
             SetToSeq(DOMAIN ns.nss))
AllIn(s, Op(_)) == FoldLeft(LAMBDA a, e : a \o Op(e.ns), <<>>, Spaces(s.nss, <<>>))
OwnIdFields(ns) == LET fs == SetToSeq({ x \in DOMAIN ns.fields : ns.fields[x].sem = SemTypes["messageid"] })
                   IN [k \in DOMAIN fs |-> ns.fields[fs[k]]]
FullName(e) == Join(e.path \o <<Cls(e.m.name)>>, "_")
\* the enumeration of a namespace: the enumerators of the one field of message
\* ids, where there is one, otherwise the messages
MsgIds(st, u, o) ==
    LET ns == NsOf(st, u)
        s == st.schemas[u.s]
        own == IdFields(ns)
        fs == IF own = <<>> /\ u.path = <<>> THEN AllIn(s, OwnIdFields) ELSE own
        below == MsgsBelow(ns, u.path)
        all == FoldLeft(LAMBDA a, e : a \o (IF e.path = <<>> THEN LET m == SetToSeq(DOMAIN e.ns.msgs) IN [i \in DOMAIN m |-> [path |-> <<>>, m |-> e.ns.msgs[m[i]]]]
                                            ELSE IF Len(e.path) = 1 THEN MsgsBelow(e.ns, e.path) ELSE <<>>),
                        <<>>, Spaces(s.nss, <<>>))
        ms == ById(IF below = <<>> /\ u.path = <<>> THEN all ELSE below)
    IN IF Len(fs) = 1
       THEN LET es == EnumItems(st, u.s, o, fs[1]) IN [k \in DOMAIN es |-> <<"MsgId_" \o es[k][1], es[k][2]>>]
       ELSE [k \in DOMAIN ms |-> <<"MsgId_" \o FullName(ms[k]), WDec(ms[k].m.id)>>]
CppMax == "unsigned" :> "4294967295" @@ "unsigned long long" :> "18446744073709551615"
    @@ "std::uint8_t" :> "255" @@ "std::uint16_t" :> "65535" @@ "std::uint32_t" :> "4294967295"
    @@ "std::uint64_t" :> "18446744073709551615" @@ "std::int8_t" :> "127" @@ "std::int16_t" :> "32767"
    @@ "std::int32_t" :> "2147483647" @@ "std::int64_t" :> "9223372036854775807"
\* decimal strings by value (both not negative)
DigitAt(a, i) == (CHOOSE k \in DOMAIN Digit : Digit[k] = SubSeq(a, i, i))
DecLe(a, b) ==
    LET ds == { i \in 1..Len(a) : SubSeq(a, i, i) # SubSeq(b, i, i) } IN
    IF Len(a) # Len(b) THEN Len(a) < Len(b)
    ELSE IF ds = {} THEN TRUE
    ELSE LET d == CHOOSE i \in ds : \A x \in ds : i <= x IN DigitAt(a, d) < DigitAt(b, d)
NegDec(a) == SubSeq(a, 1, 1) = "-"
Holds(t, v) == t \in DOMAIN CppMax /\ (NegDec(v) \/ DecLe(v, CppMax[t]))

---------------------------------------------------------------------------
(* files *)
Both(parts) == <<Header(parts), Header(Front(parts) \o <<Last(parts) \o "Common">>)>>
OptionNames == <<"DefaultOptions", "ClientDefaultOptions", "ServerDefaultOptions", "DataViewDefaultOptions", "BareMetalDefaultOptions">>
RootFiles == <<"CMakeLists.txt", "doc/doxygen.conf", "doc/layout.xml", "doc/main.dox", "doc/namespaces.dox">>
\* fields defined by the layers of a frame
OwnLayerFields(f) == { <<i, k>> \in (DOMAIN f.layers) \X {"field", "escf"} : k \in DOMAIN f.layers[i] /\ f.layers[i][k].xref = "" }
\* one file per group and side
PerBundle(st, u, o, F(_, _)) ==
    LET gs == Groups(st, u, o) IN
    FoldLeft(LAMBDA a, g : a \o [k \in DOMAIN Sides |-> F(g, Sides[k])], <<>>, gs)
UnitFiles(st, u, o, refs) ==
    LET main == MainNs(st, u.s, o)
        s == st.schemas[u.s]
        ns == NsOf(st, u)
        at(parts) == <<main>> \o u.path \o parts
        last == u.s = Len(st.schemas)
        some(Is(_, _)) == \E x \in DOMAIN s.nss : Is(s.nss[x], refs)
        frames == HasFrames(ns)
    IN CASE u.u = "schema" ->
              (IF last \/ some(HasFieldCode) THEN <<Header(<<main, "field", "FieldBase">>)>> ELSE <<>>)
              \o (IF last \/ some(HasCode) THEN <<Header(<<main, "Version">>)>> \o [k \in DOMAIN OptionNames |-> Header(<<main, "options", OptionNames[k]>>)]
                  ELSE <<>>)
              \o (IF ~last THEN <<>>
                  ELSE RootFiles \o PerBundle(st, u, o, LAMBDA g, side : Header(<<main, "options", BundleName(g, side) \o "DynMemMsgFactoryDefaultOptions">>)))
         [] u.u = "ns" ->
              (IF ns.ifaces # EmptyMap THEN <<Header(at(<<"MsgId">>))>> ELSE <<>>)
              \o (IF frames THEN PerBundle(st, u, o, LAMBDA g, side : Header(at(<<"input", BundleName(g, side)>>))) ELSE <<>>)
              \o (IF frames /\ HasMsgs(ns)
                  THEN PerBundle(st, u, o, LAMBDA g, side : Header(at(<<"dispatch", DispatchName(g, side)>>)))
                       \o PerBundle(st, u, o, LAMBDA g, side : Header(at(<<"factory", BundleName(g, side) \o "DynMemMsgFactory">>)))
                  ELSE <<>>)
         [] u.u = "msg" -> Both(at(<<"message", Cls(u.name)>>))
         [] u.u = "iface" -> IF ns.ifaces[u.name].fields = <<>> THEN <<Header(at(<<Cls(u.name)>>))>> ELSE Both(at(<<Cls(u.name)>>))
         [] u.u = "frame" -> IF OwnLayerFields(ns.frames[u.name]) = {} THEN <<Header(at(<<"frame", Cls(u.name)>>))>> ELSE Both(at(<<"frame", Cls(u.name)>>))
         [] u.u = "field" -> Both(at(<<"field", Cls(u.name)>>))
\* headers of layers which have to be supplied with the custom code
CustomHeaders(st, o) ==
    LET of(k) == LET sp == Spaces(st.schemas[k].nss, <<>>) IN
            UNION { UNION { { Header(<<MainNs(st, k, o), "frame", "layer", Cls(l.name)>>)
                              : l \in { y \in Rng(sp[i].ns.frames[x].layers) : y.kind = "custom" } }
                            \cup { Header(<<MainNs(st, k, o), "frame", "checksum", Cls(l.algn)>>)
                              : l \in { y \in Rng(sp[i].ns.frames[x].layers) : y.kind = "checksum" /\ y.algn # "" } }
                            : x \in DOMAIN sp[i].ns.frames } : i \in DOMAIN sp }
    IN UNION { of(k) : k \in DOMAIN st.schemas }

---------------------------------------------------------------------------
(* judging the observed output: what is wrong with it *)
Wrong(name, cond, x) == IF cond THEN {} ELSE {<<name, ToString(x)>>}
At(m, k, default) == IF k \in DOMAIN m THEN m[k] ELSE default
NoBundle == [n |-> "", m |-> <<>>, a |-> <<>>, macro |-> <<>>]
MultiSet(s) == [x \in Rng(s) |-> Cardinality({ i \in DOMAIN s : s[i] = x })]

WrongBundle(st, u, o, obs, g, side) ==
    LET main == MainNs(st, u.s, o)
        ms == SelectSeq(ById(MsgsBelow(NsOf(st, u), u.path)), LAMBDA e : Belongs(st, e.m, g, side, o))
        f == Header(<<main>> \o u.path \o <<"input", BundleName(g, side)>>)
        b == At(obs.bundle, f, NoBundle)
        scopes == [i \in DOMAIN ms |-> MsgScope(main, ms[i])]
    IN Wrong("bundle " \o f, b.n = Scope(<<main>> \o u.path \o <<"input", BundleName(g, side)>>), b.n)
       \cup Wrong("messages of " \o f, b.m = scopes, <<b.m, scopes>>)
       \cup Wrong("aliases of " \o f, b.a = [i \in DOMAIN ms |-> <<Cls(ms[i].m.name), scopes[i]>>], b.a)
       \cup Wrong("includes of " \o f, f \notin DOMAIN obs.inc \/
                  Rng(obs.inc[f]) = { MsgFile(main, ms[i]) : i \in DOMAIN ms } \cup {main \o "/options/DefaultOptions.h"}, At(obs.inc, f, <<>>))
WrongDispatch(st, u, o, obs, g, side) ==
    LET main == MainNs(st, u.s, o)
        ms == SelectSeq(ById(MsgsBelow(NsOf(st, u), u.path)), LAMBDA e : Belongs(st, e.m, g, side, o))
        cs == Cases(main, ms)
        fd == Header(<<main>> \o u.path \o <<"dispatch", DispatchName(g, side)>>)
        ff == Header(<<main>> \o u.path \o <<"factory", BundleName(g, side) \o "DynMemMsgFactory">>)
        d == At(obs.disp, fd, EmptyMap)
        fa == At(obs.fac, ff, [make |-> <<>>, count |-> <<>>, uniq |-> ""])
        fn == "dispatch" \o Cls(g.n) \o side \o "Message"
        \* one number can be the id of several messages only where allowed
        twice == \E i \in DOMAIN cs : Len(cs[i][2]) > 1
    IN Wrong("dispatch of " \o fd, IF cs = <<>> THEN TRUE ELSE fn \in DOMAIN d /\ \A i \in DOMAIN d[fn] : d[fn][i] = cs, <<d, cs>>)
       \cup Wrong("functions of " \o fd, DOMAIN d \subseteq {fn}, DOMAIN d)
       \cup Wrong("creation in " \o ff, fa.make = cs, <<fa.make, cs>>)
       \cup Wrong("counts of " \o ff, cs = <<>> \/ fa.count = [i \in DOMAIN cs |-> <<cs[i][1], NDec(Len(cs[i][2]))>>], fa.count)
       \cup Wrong("uniqueness in " \o ff, fa.uniq = (IF twice THEN "false" ELSE "true"), fa.uniq)
       \cup Wrong("includes of " \o fd, main \o "/" \o Join(u.path \o <<"input", BundleName(g, side)>>, "/") \o ".h" \in Rng(At(obs.inc, fd, <<>>)), At(obs.inc, fd, <<>>))
       \cup Wrong("includes of " \o ff, main \o "/" \o Join(u.path \o <<"input", BundleName(g, side)>>, "/") \o ".h" \in Rng(At(obs.inc, ff, <<>>)), At(obs.inc, ff, <<>>))
Markers == {"MsgId_FirstValue", "MsgId_LastValue", "MsgId_ValuesLimit", "MsgId_firstValue", "MsgId_lastValue", "MsgId_valuesLimit"}
WrongIds(st, u, o, obs) ==
    LET f == Header(<<MainNs(st, u.s, o)>> \o u.path \o <<"MsgId">>)
        e == At(obs.ids, f, [t |-> "", v |-> <<>>])
        seen == SelectSeq(e.v, LAMBDA x : x[1] \notin Markers)
        want == SelectSeq(MsgIds(st, u, o), LAMBDA x : x[1] \notin Markers)
    IN Wrong("ids of " \o f, MultiSet(seen) = MultiSet(want), <<seen, want>>)
       \cup Wrong("type of " \o f, \A i \in DOMAIN want : Holds(e.t, want[i][2]), e.t)
\* P19
WrongMessages(st, u, o, obs) ==
    IF u.u # "ns" THEN {}
    ELSE LET ns == NsOf(st, u)
             gs == Groups(st, u, o)
             each(W(_, _)) == UNION { UNION { W(gs[i], Sides[k]) : k \in DOMAIN Sides } : i \in DOMAIN gs }
         IN (IF ns.ifaces # EmptyMap THEN WrongIds(st, u, o, obs) ELSE {})
            \cup (IF HasFrames(ns) THEN each(LAMBDA g, side : WrongBundle(st, u, o, obs, g, side)) ELSE {})
            \cup (IF HasFrames(ns) /\ HasMsgs(ns) THEN each(LAMBDA g, side : WrongDispatch(st, u, o, obs, g, side)) ELSE {})
\* P25: every file opens the namespaces of its element
OpenOf(st, u, o, f) ==
    LET main == MainNs(st, u.s, o)
        at(x) == Scope(<<main>> \o u.path \o x)
        sub == CASE u.u = "schema" -> {at(<<"field">>), at(<<"options">>), at(<<>>), ""}
                 [] u.u = "ns" -> {at(<<"input">>), at(<<"dispatch">>), at(<<"factory">>), at(<<>>)}
                 [] u.u = "msg" -> {at(<<"message">>)}
                 [] u.u = "iface" -> {at(<<>>)}
                 [] u.u = "frame" -> {at(<<"frame">>)}
                 [] u.u = "field" -> {at(<<"field">>)}
    IN sub
WrongPlaces(st, u, o, obs, refs) ==
    LET fs == UnitFiles(st, u, o, refs)
    IN UNION { Wrong("namespaces of " \o fs[i], fs[i] \notin DOMAIN obs.open \/ obs.open[fs[i]] \in OpenOf(st, u, o, fs[i]), obs.open[fs[i]])
               : i \in { k \in DOMAIN fs : fs[k] \in DOMAIN obs.open } }
\* the original name of a schema with an overridden namespace is not used anywhere in the code
WrongUses(st, o, obs) ==
    UNION { LET n == st.schemas[k].name IN
            Wrong("original namespace " \o n,
                  MainNs(st, k, o) = n \/ (\E x \in DOMAIN st.schemas : MainNs(st, x, o) = n) \/ At(obs.uses, n, <<>>) = <<>>, At(obs.uses, n, <<>>))
            : k \in DOMAIN st.schemas }
\* P24: the files are those of the units, and include only generated ones
WrongFiles(st, o, obs, want) ==
    Wrong("files not generated", want \subseteq Rng(obs.files), want \ Rng(obs.files))
    \cup Wrong("files not called for", Rng(obs.files) \subseteq want, Rng(obs.files) \ want)
WrongIncludes(st, o, obs) ==
    LET have == Rng(obs.files) \cup CustomHeaders(st, o)
        ok(x) == StartsWith(x, "comms/") \/ ("include/" \o x) \in have
    IN UNION { Wrong("includes of " \o f, \A i \in DOMAIN obs.inc[f] : ok(obs.inc[f][i]), SelectSeq(obs.inc[f], LAMBDA x : ~ok(x)))
               : f \in DOMAIN obs.inc }
===========================================================================
