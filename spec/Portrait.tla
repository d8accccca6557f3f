----------------------------- MODULE Portrait ------------------------------
(* What the generators beside the C++ one say about the protocol: the C     *)
(* wrapper, the bindings (swig, emscripten), the documentation (latex), the *)
(* tools plugin and the test application.                                   *)
(*                                                                          *)
(* All of them describe the same protocol as the C++ definitions judged in  *)
(* Gen and GenFields: the same enumerators with the same values, the same   *)
(* bits, members in the same order, messages with the same ids. Every app   *)
(* has its own way to name a place: names of classes joined with "_", or    *)
(* labels of sections.                                                      *)
EXTENDS GenFields

Wrapping == {"swig", "emscripten", "c"}
Documenting == {"latex"}
\* the prefix of all names of a schema
Mark(st, i, o, app) ==
    IF app = "latex" THEN "schema_" \o st.schemas[i].name
    ELSE IF app = "c" \/ Len(st.schemas) > 1 THEN MainNs(st, i, o) ELSE ""
Under(a, b) == IF a = "" THEN b ELSE a \o "_" \o b
Space(st, i, o, app, path) ==
    FoldLeft(LAMBDA a, x : IF app = "latex" THEN a \o ":ns_" \o x ELSE Under(a, x), Mark(st, i, o, app), path)

---------------------------------------------------------------------------
\* names which are there for the convenience of the code
Conveniences == {"FirstValue", "LastValue", "ValuesLimit", "firstValue", "lastValue", "valuesLimit", "TypeValuesLimit", "typeValuesLimit",
                 "numOfValues", "BitIdx_numOfValues"}
Said(x) == SelectSeq(x, LAMBDA e : e[1] \notin Conveniences)
Listed(cx, f, app) ==
    LET there == SelectSeq(f.rev, LAMBDA r : Ex(cx, f.vals[r.name].since, f.vals[r.name].dep, app = "latex"))
    IN [k \in DOMAIN there |-> <<there[k].name, IF app = "emscripten" THEN "" ELSE WDec(there[k].val)>>]
BitList(f, app) ==
    LET seq == SetToSeq(DOMAIN f.bitsl)
    IN [k \in DOMAIN seq |-> <<seq[k], IF app = "emscripten" THEN "" ELSE NDec(f.bitsl[seq[k]].idx)>>]
\* where the class of a field is: a member of the place sc, or a global field
Site(cx, g, sc, app) ==
    IF g.xref = "" THEN Under(sc, Cls(g.name))
    ELSE LET p == Dots(g.xref, 2, 2)
         IN Under(Under(Space(cx.st, SchemaOf(cx, g.xref), cx.o, app, SubSeq(p, 2, Len(p) - 1)), "field"), Cls(p[Len(p)]))
\* the functions which give the members; with the classes they give, where the bindings tell
Gives(app, pre, g, site) == pre \o Acc(g.name) \o (IF app = "emscripten" THEN "" ELSE " " \o site)
Called(app, pres, fs, sites) ==
    IF app = "latex" THEN [i \in DOMAIN fs |-> fs[i].name]
    ELSE FoldLeft(LAMBDA a, i : a \o [k \in DOMAIN pres |-> Gives(app, pres[k], fs[i], sites[i])], <<>>, [i \in DOMAIN fs |-> i])
\* what these functions use to get at the member
Uses(pres, fs, sites) ==
    FoldLeft(LAMBDA a, i : a \o [k \in DOMAIN pres |-> pres[k] \o Acc(fs[i].name) \o " " \o sites[i] \o " " \o pres[k] \o Acc(fs[i].name)],
             <<>>, [i \in DOMAIN fs |-> i])
Getters(app, at, pres, fs, sites) ==
    << <<"members", at, Called(app, pres, fs, sites)>> >>
    \o (IF app = "latex" \/ fs = <<>> THEN <<>> ELSE << <<"calls", at, Uses(pres, fs, sites)>> >>)

\* what the documentation tells in its table of details
Kinds == "int" :> "Integral" @@ "enum" :> "Enumeration" @@ "set" :> "Bitset" @@ "float" :> "Floating Point" @@ "string" :> "String"
    @@ "data" :> "Raw Data" @@ "list" :> "List" @@ "bundle" :> "Bundle (Composite)" @@ "bitfield" :> "Bitfield" @@ "variant" :> "Variant"
Length(lo, hi, units) == IF lo = hi THEN <<"Fixed Length", WDec(lo) \o units>>
                         ELSE IF hi = LMax THEN <<"Variable Length", WDec(lo) \o "+" \o units>>
                         ELSE <<"Variable Length", WDec(lo) \o " - " \o WDec(hi) \o units>>
Ranges(cx, f) ==
    LET rs == SelectSeq(f.ranges, LAMBDA r : Ex(cx, r.since, r.dep, TRUE))
        one(r) == IF r.min = r.max THEN WDec(Unsigned(f, r.min)) ELSE "[" \o WDec(Unsigned(f, r.min)) \o " - " \o WDec(Unsigned(f, r.max)) \o "]"
    IN IF rs = <<>> THEN <<>>
       ELSE << <<IF Len(rs) = 1 /\ f.foi THEN "Must Have Value" ELSE "Valid Values", Join([i \in DOMAIN rs |-> one(rs[i])], ", ")>> >>
Details(cx, f) ==
    << <<"Field Kind", Kinds[f.kind]>>,
       IF f.pseudo THEN <<"Pseudo Field", "Yes">>
       ELSE IF cx.inbits THEN Length(f.bits, f.bits, " Bits") ELSE Length(f.minl, f.maxl, " Bytes") >>
    \o (IF f.kind \in {"int", "enum"} THEN << <<"Signed", IF TypeUns(f.type) THEN "No" ELSE "Yes">> >> ELSE <<>>)
    \o (IF f.kind \in {"int", "enum", "set", "float", "bitfield"} THEN << <<"Endian", IF f.endian = 1 THEN "Big" ELSE "Little">> >> ELSE <<>>)
    \o (IF f.kind = "int" THEN (IF f.scn = f.scd THEN <<>> ELSE << <<"Scaling", WDec(f.scn) \o " / " \o WDec(f.scd)>> >>) \o Ranges(cx, f) ELSE <<>>)
\* special values which exist
Special(cx, f, app) ==
    LET xs == SetToSeq({ x \in DOMAIN f.specials : Ex(cx, f.specials[x].since, f.specials[x].dep, TRUE) })
    IN IF app = "latex" THEN [i \in DOMAIN xs |-> <<xs[i], IF f.kind = "int" THEN WDec(Unsigned(f, f.specials[xs[i]].val)) ELSE "">>]
       ELSE [i \in DOMAIN xs |-> Cls(xs[i])]
SwigInt == "std::int8_t" :> "signed char" @@ "std::uint8_t" :> "unsigned char" @@ "std::int16_t" :> "short" @@ "std::uint16_t" :> "unsigned short"
    @@ "std::int32_t" :> "int" @@ "std::uint32_t" :> "unsigned" @@ "std::int64_t" :> "long long" @@ "std::uint64_t" :> "unsigned long long"
ValueType(f, app) ==
    IF f.kind = "float" THEN f.type
    ELSE LET t == CppInt(f.type, f.maxl) IN IF app = "c" THEN SubSeq(t, 6, Len(t)) ELSE SwigInt[t]
Traits(cx, f, at, app) ==
    IF app = "latex" THEN (IF f.kind \in DOMAIN Kinds THEN << <<"details", at, Details(cx, f)>> >> ELSE <<>>)
                          \o (IF f.kind \in {"int", "float"} /\ DOMAIN f.specials # {} THEN << <<"values", at, Special(cx, f, app)>> >> ELSE <<>>)
    ELSE IF f.kind \notin {"int", "float"} THEN <<>>
    ELSE << <<"specials", at, Special(cx, f, app)>> >>
         \o (IF app = "swig" THEN <<>> ELSE << <<"given", at, Special(cx, f, app)>> >>)
         \o (IF app = "emscripten" THEN <<>> ELSE << <<"types", at, ValueType(f, app)>> >>)
\* emscripten has no enumerations of more than 32 bits
WideEnum(f) == f.type \in {"int64", "uint64"} \/ (TypeVar(f.type) /\ WLt(WN(4), f.minl))
\* the wrappers leave out what is only there to tell where data ends
Shown(f, app) ==
    IF app = "latex" \/ HasMembers(f) THEN Parts(f)
    ELSE FoldLeft(LAMBDA a, k : IF k \in DOMAIN f /\ f[k].xref = "" THEN Append(a, f[k]) ELSE a, <<>>,
                  IF f.kind = "list" THEN <<"elem">> ELSE IF f.kind = "optional" THEN <<"field">> ELSE <<>>)
\* facts <<kind, place, value>> about a field and its parts; sc: the place it is defined in, csc: in C++
RECURSIVE Looks(_, _, _, _, _, _)
Looks(cx, f, sc, csc, ps, app) ==
    LET wrapped == Wrapped(cx, f, ps)
        latex == app = "latex"
        at == IF latex THEN sc \o ":field_" \o f.name ELSE Under(sc, Cls(f.name)) \o (IF wrapped THEN "Field" ELSE "")
        in == IF latex THEN at ELSE Under(sc, MembersOf(f))
        sites == IF HasMembers(f) THEN [i \in DOMAIN f.members |-> Site(cx, f.members[i], in, app)] ELSE <<>>
    IN (IF f.kind = "enum" /\ app = "emscripten" /\ (WideEnum(f) \/ (f.sem = SemTypes["messageid"] /\ cx.ids = 1)) THEN <<>>
        ELSE IF f.kind = "enum" THEN << <<"enums", at, Listed(cx, f, app)>> >>
        ELSE IF f.kind = "set" THEN << <<"bits", at, BitList(f, app)>> >>
        ELSE IF f.kind = "variant"
             THEN Getters(app, at, <<"initField_", "accessField_">>, f.members, sites)
                  \o (IF latex THEN <<>>
                      ELSE << <<"cases", at, [i \in DOMAIN f.members |-> <<IF app = "c" THEN Acc(f.members[i].name) ELSE NDec(i - 1), Acc(f.members[i].name)>>]>> >>)
        ELSE IF HasMembers(f) THEN Getters(app, at, <<"field_">>, f.members, sites) ELSE <<>>)
       \o Traits(cx, f, at, app)
       \o (IF latex THEN <<>>
           ELSE << <<"bases", at, csc \o "::" \o Cls(f.name) \o (IF wrapped THEN "Field" ELSE "")>> >>
                \o (IF wrapped THEN << <<"bases", Under(sc, Cls(f.name)), csc \o "::" \o Cls(f.name)>> >> ELSE <<>>))
       \o FoldLeft(LAMBDA a, m : a \o Looks(("inbits" :> (f.kind = "bitfield")) @@ cx, m, in, csc \o "::" \o MembersOf(f), Max({ps, f.since}), app),
                   <<>>, Shown(f, app))

\* the interface the messages of a namespace are used with
RECURSIVE HasIface(_, _)
HasIface(s, path) ==
    \/ NsAt(s.nss, IF path = <<>> THEN <<"">> ELSE path).ifaces # EmptyMap
    \/ path # <<>> /\ (IF Len(path) = 1 THEN "" \in DOMAIN s.nss /\ s.nss[""].ifaces # EmptyMap ELSE HasIface(s, Front(path)))

Handled(st, u) ==
    LET s == st.schemas[u.s]
        below == MsgsBelow(NsOf(st, u), u.path)
        all == FoldLeft(LAMBDA a, x : a \o MsgsBelow(s.nss[x], IF x = "" THEN <<>> ELSE <<x>>), <<>>, SetToSeq(DOMAIN s.nss))
    IN ById(IF below = <<>> /\ u.path = <<>> THEN all ELSE below)

Sketch(cx, u, ns, app) ==
    LET at == Space(cx.st, cx.i, cx.o, app, u.path)
        latex == app = "latex"
        cpp == Scope(<<cx.main>> \o u.path)
        fields(fs, sc, csc, ps) == FoldLeft(LAMBDA a, f : a \o Looks(cx, f, sc, csc, ps, app), <<>>, fs)
        base(sc, csc) == IF latex THEN <<>> ELSE << <<"bases", sc, csc>> >>
    IN CASE u.u = "field" -> Looks(cx, ns.fields[u.name], IF latex THEN at ELSE Under(at, "field"), cpp \o "::field", 0, app)
         [] u.u = "msg" ->
              LET m == ns.msgs[u.name]
                  sc == IF latex THEN at \o ":msg_" \o m.name ELSE Under(at, "message") \o "_" \o Cls(m.name)
              IN IF latex THEN << <<"numbers", sc, WDec(m.id)>> >>
                               \o (IF m.fields = <<>> THEN <<>> ELSE Getters(app, sc, <<>>, m.fields, <<>>))
                               \o fields(m.fields, sc, "", m.since)
                 ELSE IF ~HasIface(cx.st.schemas[u.s], u.path) THEN <<>>
                 ELSE Getters(app, sc, <<"field_">>, m.fields, [i \in DOMAIN m.fields |-> Site(cx, m.fields[i], sc \o "Fields", app)])
                          \o base(sc, cpp \o "::message::" \o Cls(m.name))
                          \o fields(m.fields, sc \o "Fields", cpp \o "::message::" \o Cls(m.name) \o "Fields", m.since)
         [] u.u = "iface" ->
              LET m == ns.ifaces[u.name]
                  sc == Under(at, Cls(m.name))
              IN IF latex \/ (app = "c" /\ Cardinality(DOMAIN ns.ifaces) > 1) THEN <<>>   \* the C code is for one interface
                 ELSE (IF m.fields = <<>> THEN <<>>
                           ELSE Getters(app, sc, <<"transportField_">>, m.fields, [i \in DOMAIN m.fields |-> Site(cx, m.fields[i], sc \o "Fields", app)]))
                          \o base(sc, cpp \o "::" \o Cls(m.name))
                          \o fields(m.fields, sc \o "Fields", cpp \o "::" \o Cls(m.name) \o "Fields", 0)
         [] u.u = "ns" ->
              IF latex \/ ns.ifaces = EmptyMap THEN <<>>
              ELSE LET ms == Handled(cx.st, u)
                       scope(e) == Under(Under(Space(cx.st, cx.i, cx.o, app, e.path), "message"), Cls(e.m.name))
                       ids == MsgIds(cx.st, u, cx.o)
                   IN << <<"ids", Under(at, "MsgId"), [i \in DOMAIN ids |-> <<SubSeq(ids[i][1], 7, Len(ids[i][1])), IF app = "emscripten" THEN "" ELSE ids[i][2]>>]>>,
                         <<"handlers", Under(at, "MsgHandler"), [i \in DOMAIN ms |-> scope(ms[i])]>> >>
         [] OTHER -> <<>>

\* the surroundings, with the number of fields of message ids in the namespace
InNs(st, u, o) == Around(st, u.s, o) @@ ("inbits" :> FALSE) @@ ("ids" :> Len(IdFields(NsOf(st, u))))

WrongLook(x, obs) ==
    CASE x[1] \in {"enums", "bits", "ids"} ->
            LET seen == Said(At(obs[x[1]], x[2], IF Said(x[3]) = <<>> THEN <<>> ELSE <<<<"none", "">>>>)) IN Wrong(x[1] \o " of " \o x[2], MultiSet(seen) = MultiSet(Said(x[3])), <<seen, x[3]>>)
      [] x[1] = "values" ->
            LET seen == At(obs.values, x[2], <<>>)
                said == IF Len(seen) = Len(x[3]) /\ seen # <<>> THEN [i \in DOMAIN seen |-> <<seen[i][1], IF x[3][1][2] = "" THEN "" ELSE seen[i][2]>>] ELSE seen
            IN Wrong("special values of " \o x[2], MultiSet(said) = MultiSet(x[3]), <<seen, x[3]>>)
      [] x[1] \in {"specials", "given"} ->
            LET seen == At(obs[x[1]], x[2], <<>>) IN Wrong(x[1] \o " of " \o x[2], MultiSet(seen) = MultiSet(x[3]), <<seen, x[3]>>)
      [] x[1] = "details" ->
            LET seen == At(obs.details, x[2], <<>>)
                missing == Rng(x[3]) \ Rng(seen)
            IN Wrong("details of " \o x[2], missing = {}, <<missing, seen>>)
      [] x[1] = "handlers" ->
            LET seen == At(obs.lists, x[2], <<"none">>) IN Wrong("handler " \o x[2], Len(seen) = Len(x[3]) + 1 /\ SubSeq(seen, 1, Len(x[3])) = x[3], <<seen, x[3]>>)
      [] OTHER -> IF x[2] \notin DOMAIN obs[x[1]] THEN Wrong(x[1] \o " of " \o x[2], FALSE, "none")
                  ELSE Wrong(x[1] \o " of " \o x[2], obs[x[1]][x[2]] = x[3], <<obs[x[1]][x[2]], x[3]>>)
WrongPortrait(st, u, o, obs, refs, app) ==
    LET fs == Sketch(InNs(st, u, o), u, NsOf(st, u), app)
    IN UNION { WrongLook(fs[i], obs) : i \in DOMAIN fs }
\* what the output may speak of
Spoken(st, u, o, app) ==
    LET fs == Sketch(InNs(st, u, o), u, NsOf(st, u), app) IN { <<fs[i][1], fs[i][2]>> : i \in DOMAIN fs }
WrongExtras(obs, spoken) ==
    Wrong("functions declared and not defined so", obs.loose = <<>>, obs.loose) \cup
    UNION { LET extra == { x \in DOMAIN obs[k] : <<k, x>> \notin spoken } IN Wrong(k \o " not in the protocol", extra = {}, extra)
            : k \in {"enums", "bits", "ids", "numbers"} }
=============================================================================
