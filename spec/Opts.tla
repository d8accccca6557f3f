-------------------------------- MODULE Opts --------------------------------
(* What can be customized, and what the variants of the options set.        *)
(*                                                                          *)
(* A customization point is a path among the options which one class of the *)
(* generated code takes its extra options from. DefaultOptions has every    *)
(* point, empty. The other variants set some of them for a purpose - views  *)
(* on data, no dynamic memory, one side of the communication only, message  *)
(* factories - and keep all the rest: whatever they redefine builds upon    *)
(* what is at the same path of the options they are based on.               *)
EXTENDS GenFields

Path(p) == Scope(p)
App(x) == "comms::option::app::" \o x
\* points: path, place of the class which uses it (where one has to), and options per variant
Pt(p, at, dv, bm) == [p |-> p, at |-> at, use |-> TRUE, dv |-> dv, bm |-> bm, cl |-> <<>>, sv |-> <<>>, mf |-> <<>>]

---------------------------------------------------------------------------
Level(cx) == IF cx.o.cust = "" THEN "limited" ELSE cx.o.cust
RECURSIVE Custom(_, _)
Custom(cx, f) ==
    \/ Level(cx) = "full" \/ f.custom
    \/ /\ Level(cx) = "limited"
       /\ IF f.kind = "ref" THEN Custom(There(cx, f.ref.xref), f.ref) ELSE f.kind \in {"list", "string", "data"}
Fixed(f) == IF f.kind = "list" THEN f.fcount # 0 ELSE f.flen # 0
Storage(f) == IF f.kind \notin {"list", "string", "data"} THEN <<>>
              ELSE IF Fixed(f) THEN <<App("SequenceFixedSizeUseFixedSizeStorage")>>
              ELSE <<App("FixedSizeStorage<DEFAULT_SEQ_FIXED_STORAGE_SIZE>")>>
View(f) == IF f.kind \in {"string", "data"} THEN <<App("OrigDataView")>> ELSE <<>>
RECURSIVE FieldPoints(_, _, _, _)
FieldPoints(cx, f, at, ps) ==
    (IF Custom(cx, f) THEN { Pt(at \o <<Cls(f.name)>>, at \o <<Cls(f.name) \o (IF Wrapped(cx, f, ps) THEN "Field" ELSE "")>>, View(f), Storage(f)) } ELSE {})
    \cup UNION { FieldPoints(cx, m, at \o <<MembersOf(f)>>, Max({ps, f.since})) : m \in Rng(Parts(f)) }
MessageCustom(cx, m) == Level(cx) = "full" \/ m.custom \/ (Level(cx) = "limited" /\ m.sender # 0)
NoInput == <<App("NoReadImpl"), App("NoDispatchImpl")>>
NoOutput == <<App("NoWriteImpl"), App("NoRefreshImpl")>>
MessagePoints(cx, m, ns) ==
    LET at == ns \o <<"message", Cls(m.name)>>
    IN (IF MessageCustom(cx, m)
        THEN { [Pt(at, at, <<>>, <<>>) EXCEPT !.cl = CASE m.sender = 1 -> NoInput [] m.sender = 2 -> NoOutput [] OTHER -> <<>>,
                                              !.sv = CASE m.sender = 1 -> NoOutput [] m.sender = 2 -> NoInput [] OTHER -> <<>>] }
        ELSE {})
       \cup UNION { FieldPoints(cx, f, ns \o <<"message", Cls(m.name) \o "Fields">>, m.since) : f \in Rng(m.fields) }
\* the messages which frames without a choice of their own create
FactoryName(ns) == FoldLeft(LAMBDA a, x : a \o x \o "_", "", ns) \o "MsgFactory"
Creates(l) == l.kind = "id" \/ (l.kind = "custom" /\ l.sem = "id")
FramePoints(cx, f, ns) ==
    LET at == ns \o <<"frame", Cls(f.name) \o "Layers">>
        \* namespaces around with a factory of their own: the nearest is used
        sp == Spaces(cx.st.schemas[cx.i].nss, <<>>)
        makers == { sp[k].path : k \in { y \in DOMAIN sp : HasMsgs(sp[y].ns) /\ (IF Len(sp[y].path) > Len(ns) THEN FALSE ELSE sp[y].path = SubSeq(ns, 1, Len(sp[y].path))) /\ (sp[y].path = <<>> => ns = <<>>) } }
        near == CHOOSE p \in makers : \A q \in makers : Len(q) <= Len(p)
        own(l) == IF Level(cx) # "full" /\ l.kind \notin {"id", "custom"} THEN {}
                  ELSE { [Pt(at \o <<Cls(l.name)>>, at \o <<Cls(l.name)>>, <<>>, IF Creates(l) THEN <<App("InPlaceAllocation")>> ELSE <<>>)
                          EXCEPT !.use = l.kind \in {"id", "custom"}, !.mf = IF Creates(l) /\ makers # {} THEN <<App("MsgFactoryTempl<" \o FactoryName(near) \o ">")>> ELSE <<>>] }
        in(l) == at \o <<MembersOf(l)>>
        part(l, k) == IF k \in DOMAIN l /\ l[k].xref = "" THEN FieldPoints(cx, l[k], in(l), 0) ELSE {}
    IN UNION { own(l)
               \cup (IF l.kind = "payload"
                     THEN { Pt(in(l) \o <<"Field">>, in(l) \o <<"Field">>, <<App("OrigDataView")>>, <<App("FixedSizeStorage<DEFAULT_SEQ_FIXED_STORAGE_SIZE*8>")>>) }
                     ELSE part(l, "field") \cup part(l, "escf"))
               : l \in Rng(f.layers) }

---------------------------------------------------------------------------
(* the structures of one variant *)
Heads(S) == UNION { { SubSeq(p, 1, k) : k \in 1..(Len(p) - 1) } : p \in S }
\* what is there: points of the schema with the main namespace where it is needed
Points(st, i, o, refs) ==
    LET cx == Around(st, i, o)
        us == Units(st, refs)
        of(u) == LET ns == NsOf(st, u) IN
                 CASE u.u = "field" -> FieldPoints(cx, ns.fields[u.name], u.path \o <<"field">>, 0)
                   [] u.u = "msg" -> MessagePoints(cx, ns.msgs[u.name], u.path)
                   [] u.u = "frame" -> FramePoints(cx, ns.frames[u.name], u.path)
                   [] OTHER -> {}
    IN UNION { IF us[k].s = i THEN of(us[k]) ELSE {} : k \in DOMAIN us }
InFront(st, i, o) == IF Len(st.schemas) > 1 \/ o.maininopts THEN <<MainNs(st, i, o)>> ELSE <<>>
Structure(uses, based) ==
    LET base(p) == "TBase::" \o Path(p)
        named == { u[1] : u \in uses }
        heads == Heads(named)
        set == [ x \in { Path(p) : p \in named } |->
                 LET u == CHOOSE y \in uses : Path(y[1]) = x IN IF based THEN u[2] \o <<base(u[1])>> ELSE u[2] ]
        open == [ x \in { Path(p) : p \in heads } |-> IF based THEN base(CHOOSE p \in heads : Path(p) = x) ELSE "" ]
    IN [u |-> set, s |-> open]
NoStructure == [dflt |-> "", base |-> "", s |-> EmptyMap, u |-> EmptyMap, a |-> EmptyMap, self |-> ""]
WrongVariant(obs, main, cls, dflt, want, aliases, plain) ==
    LET file == Header(<<main, "options", cls>>)
        e == At(obs.opts, file, NoStructure)
        say == "of " \o file
        keys(f) == DOMAIN f
        diff(f, g) == { k \in keys(f) \cup keys(g) : IF k \in keys(f) /\ k \in keys(g) THEN f[k] # g[k] ELSE TRUE }
        du == diff(e.u, want.u)
        \* more structures than needed do no harm as long as they hide nothing
        ds == { k \in diff(e.s, want.s) : k \in DOMAIN want.s \/ (e.s[k] # "" /\ (e.s[k] # "TBase::" \o k \/ k \notin plain)) }
        da == diff(e.a, aliases)
    IN Wrong("options " \o say, du = {}, <<du, { At(e.u, k, <<>>) : k \in du }, { At(want.u, k, <<>>) : k \in du }>>)
       \cup Wrong("structures " \o say, ds = {}, <<ds, { At(e.s, k, "none") : k \in ds }, { At(want.s, k, "none") : k \in ds }>>)
       \cup Wrong("factories " \o say, da = {}, <<da, { At(e.a, k, "none") : k \in da }, { At(aliases, k, "none") : k \in da }>>)
       \cup Wrong("base " \o say, e.dflt = dflt /\ e.base = "TBase" /\ e.self = cls \o "T<>", <<e.dflt, e.base, e.self>>)
WrongOptions(st, u, o, obs, refs) ==
    IF u.u # "schema" THEN {}
    ELSE LET s == st.schemas[u.s]
             main == MainNs(st, u.s, o)
             last == u.s = Len(st.schemas)
             there == last \/ \E x \in DOMAIN s.nss : HasCode(s.nss[x], refs)
             head == InFront(st, u.s, o)
             pts == Points(st, u.s, o, refs)
             some(F(_)) == { <<head \o p.p, F(p)>> : p \in { q \in pts : F(q) # <<>> } }
             dflt == main \o "::options::DefaultOptions"
             plain == Structure({ <<head \o p.p, <<App("EmptyOption")>>>> : p \in pts }, FALSE)
             sp == Spaces(s.nss, <<>>)
             makers == { k \in DOMAIN sp : HasFrames(sp[k].ns) /\ HasMsgs(sp[k].ns) }
             factory(g, side) ==
                 LET b == BundleName(g, side) \o "DynMem"
                     cls == b \o "MsgFactoryDefaultOptions"
                     alias == [ x \in { FactoryName(sp[k].path) : k \in makers } |->
                                LET k == CHOOSE y \in makers : FactoryName(sp[y].path) = x
                                IN Scope(<<main>> \o sp[k].path \o <<"factory", b \o "MsgFactory">>) \o "<TInterface," \o cls \o "T<TBase>>" ]
                 IN WrongVariant(obs, main, cls, dflt, Structure(some(LAMBDA p : p.mf), TRUE), alias, DOMAIN plain.s)
             gs == Groups(st, u, o)
             used == { x \in Rng(obs.topt) : StartsWith(x[1], main \o "::") }
             want == { <<Scope(<<main>> \o p.at), Path(head \o p.p)>> : p \in pts }
             extra == used \ want
             unused == { <<Scope(<<main>> \o p.at), Path(head \o p.p)>> : p \in { q \in pts : q.use } } \ used
         IN IF ~there THEN {}
            ELSE WrongVariant(obs, main, "DefaultOptions", "EmptyOptions", plain, EmptyMap, {})
                 \cup WrongVariant(obs, main, "ClientDefaultOptions", dflt, Structure(some(LAMBDA p : p.cl), TRUE), EmptyMap, DOMAIN plain.s)
                 \cup WrongVariant(obs, main, "ServerDefaultOptions", dflt, Structure(some(LAMBDA p : p.sv), TRUE), EmptyMap, DOMAIN plain.s)
                 \cup WrongVariant(obs, main, "DataViewDefaultOptions", dflt, Structure(some(LAMBDA p : p.dv), TRUE), EmptyMap, DOMAIN plain.s)
                 \cup WrongVariant(obs, main, "BareMetalDefaultOptions", dflt, Structure(some(LAMBDA p : p.bm), TRUE), EmptyMap, DOMAIN plain.s)
                 \cup (IF last THEN UNION { UNION { factory(gs[g], Sides[k]) : k \in DOMAIN Sides } : g \in DOMAIN gs } ELSE {})
                 \cup Wrong("points used by classes of " \o main, extra = {}, extra)
                 \cup Wrong("points of " \o main \o " which nothing uses", unused = {}, unused)
=============================================================================
