----------------------------- MODULE Protocol -----------------------------
(* The parser as a state machine.                                           *)
(*                                                                          *)
(* State of a parser: st - the schemas known so far and which of them is    *)
(* the current one; todo - the elements of the documents not looked at yet, *)
(* in document order; w - warnings so far. One step takes the first element *)
(* of todo and either adds what it means to st or rejects everything.       *)
EXTENDS Elements

NoSt == [schemas |-> <<>>, cur |-> 0]
SchemaProps == {"name", "displayName", "id", "version", "dslVersion", "endian", "description",
    "nonUniqueMsgIdAllowed"}
NsProps == {"name", "displayName", "description"}
NsKids == {"ns", "fields", "message", "messages", "frame", "frames", "interface", "interfaces"}

XRef(st, path) == "@" \o st.schemas[st.cur].name
                  \o FoldLeft(LAMBDA a, x : IF x = "" THEN a ELSE a \o "." \o x, "", path)
Cx(st, path, pfx) ==
    LET s == st.schemas[st.cur] IN
    [dsl |-> s.dsl, ver |-> s.version, endian |-> s.endian, st |-> st, pk |-> "ns", ps |-> 0, pd |-> NoDep,
     sib |-> <<>>, pfx |-> pfx, xr |-> XRef(st, path)]

---------------------------------------------------------------------------
(* steps: [ok, w, st, todo] *)
Stuck(x) == [ok |-> FALSE, w |-> 0, st |-> x, todo |-> <<>>]
Step(st, w, todo) == [ok |-> TRUE, w |-> w, st |-> st, todo |-> todo]
Item(k, n, path) == [k |-> k, n |-> n, path |-> path]

\* <schema>: opens a schema, or continues one opened by an earlier document
SchemaRec(n, c) ==
    LET u(p) == IF Has(n, p) THEN P(n, p).u ELSE 0
        s(p) == IF Has(n, p) THEN P(n, p).s ELSE ""
        e == IF ~HasV(n, "endian") THEN 0 ELSE IF P(n, "endian").lo = "little" THEN 0
             ELSE IF P(n, "endian").lo = "big" THEN 1 ELSE -1
        numa == Has(n, "nonUniqueMsgIdAllowed")
        keys == Rng(n.an) \cup { k \in DOMAIN n.p : k \in SchemaProps }
        early == 0 < u("dslVersion") /\ u("dslVersion") < 7
    IN [ok |-> /\ PropKids(n, SchemaProps)
               /\ u("id") >= 0 /\ u("version") >= 0 /\ u("dslVersion") >= 0 /\ e >= 0
               /\ numa => IsBool(P(n, "nonUniqueMsgIdAllowed"))
               /\ s("name") # "" => P(n, "name").nm,
        w |-> B2N(s("displayName") # "" /\ early)
              + XWarn(c, n, SchemaProps, SchemaProps \cup NsKids \cup {"platform", "platforms"}),
        f |-> [name |-> s("name"), disp |-> IF early THEN "" ELSE s("displayName"), desc |-> s("description"),
               id |-> u("id"), version |-> u("version"), dsl |-> u("dslVersion"), endian |-> e,
               numa |-> numa /\ BoolOf(P(n, "nonUniqueMsgIdAllowed")),
               platforms |-> EmptyMap, nss |-> EmptyMap, xattr |-> XAttrs(n, SchemaProps),
               xelem |-> XElems(n, SchemaProps \cup NsKids \cup {"platform", "platforms"}),
               props |-> [k \in keys |-> P(n, k).s]]]
\* what the children of a <schema> or <ns> contribute
ContentItems(n, path) ==
    FoldLeft(LAMBDA a, k :
        IF k.t = "ns" THEN Append(a, Item("ns", k, path))
        ELSE IF k.t \notin NsKids THEN a
        ELSE LET p == IF path = <<>> THEN <<"">> ELSE path
                 a1 == Append(a, Item("content", k, p))
                 many(x) == a1 \o [i \in DOMAIN k.c |-> Item(x, k.c[i], p)]
             IN CASE k.t = "fields" -> many("field")
                  [] k.t = "messages" -> many("msg") [] k.t = "message" -> Append(a1, Item("msg", k, p))
                  [] k.t = "interfaces" -> many("iface") [] k.t = "interface" -> Append(a1, Item("iface", k, p))
                  [] k.t = "frames" -> many("frame") [] k.t = "frame" -> Append(a1, Item("frame", k, p)),
        <<>>, n.c)
\* platforms given in lists come first, then the ones given alone
PlatformItems(n) ==
    FoldLeft(LAMBDA a, k : IF k.t = "platforms" THEN a \o [i \in DOMAIN k.c |-> Item("platform", k.c[i], <<>>)] ELSE a,
             <<>>, n.c)
    \o FoldLeft(LAMBDA a, k : IF k.t = "platform" THEN Append(a, Item("platform", k, <<>>)) ELSE a, <<>>, n.c)
DoSchema(st, n, multi, pfx) ==
    IF n.bad \/ n.t # "schema" THEN Stuck(st)
    ELSE
    LET x == SchemaRec(n, [pfx |-> pfx])
        name == IF x.f.name # "" THEN x.f.name ELSE IF st.cur = 0 THEN "" ELSE st.schemas[st.cur].name
        at == SchemaIdx(st, name)
        first == st.schemas = <<>>
        multiOk == LET d == st.schemas[st.cur].dsl IN multi /\ (d = 0 \/ d >= 5)
        todo == PlatformItems(n) \o ContentItems(n, <<>>)
    IN IF ~x.ok \/ name = "" THEN Stuck(st)
       ELSE IF at = 0
       THEN IF ~first /\ ~multiOk THEN Stuck(st)
            ELSE Step([schemas |-> Append(st.schemas, x.f), cur |-> Len(st.schemas) + 1], x.w, todo)
       ELSE LET o == st.schemas[at] IN
            IF \E k \in DOMAIN x.f.props : k \notin DOMAIN o.props \/ o.props[k] # x.f.props[k] THEN Stuck(st)
            ELSE Step([st EXCEPT !.cur = at, !.schemas[at].xelem = @ + x.f.xelem], x.w, todo)
DoPlatform(st, n) ==
    IF n.t # "platform" \/ ~PropKids(n, {"name"}) \/ ~Has(n, "name") THEN Stuck(st)
    ELSE LET nm == P(n, "name").s
             bad == \E i \in 1..Len(nm) : SubSeq(nm, i, i) \in {"+", "-", ","}
             known == nm \in DOMAIN st.schemas[st.cur].platforms
         IN IF bad THEN Stuck(st)
            ELSE IF known THEN Step(st, 1, <<>>)
            ELSE Step([st EXCEPT !.schemas[st.cur].platforms = (nm :> 1) @@ @], 0, <<>>)

---------------------------------------------------------------------------
(* namespaces *)
BlankNs == [name |-> "", disp |-> "", desc |-> "", xref |-> "", nss |-> EmptyMap, fields |-> EmptyMap,
    msgs |-> EmptyMap, ifaces |-> EmptyMap, frames |-> EmptyMap, xattr |-> EmptyMap, xelem |-> 0]
RECURSIVE WithNs(_, _, _)
\* nss with the namespace at path replaced by ns
WithNs(nss, path, ns) ==
    IF Len(path) = 1 THEN (path[1] :> ns) @@ nss
    ELSE [nss EXCEPT ![path[1]].nss = WithNs(@, Tail(path), ns)]
PutNs(st, path, ns) == [st EXCEPT !.schemas[st.cur].nss = WithNs(@, path, ns)]
GetNs(st, path) == NsAt(st.schemas[st.cur].nss, path)
DoNs(st, n, path, pfx) ==
    IF ~PropKids(n, NsProps) \/ ~Has(n, "name") THEN Stuck(st)
    ELSE IF ~P(n, "name").nm THEN Stuck(st)
    ELSE
    LET c == Cx(st, path, pfx)
        s(p) == IF Has(n, p) THEN P(n, p).s ELSE ""
        here == Append(path, s("name"))
        old == GetNs(st, here)
        early == ~Dsl(c, 7)
        w0 == B2N(s("displayName") # "" /\ early) + XWarn(c, n, NsProps, NsProps \cup NsKids)
        xa == XAttrs(n, NsProps)
        xe == XElems(n, NsProps \cup NsKids)
        new == [BlankNs EXCEPT !.name = s("name"), !.disp = IF early THEN "" ELSE s("displayName"),
                    !.desc = s("description"), !.xref = XRef(st, here), !.xattr = xa, !.xelem = xe]
        differs == s("description") # "" /\ old.desc # "" /\ s("description") # old.desc
        merged == [old EXCEPT !.desc = IF @ = "" THEN s("description") ELSE @, !.xattr = @ @@ xa, !.xelem = @ + xe]
        wx == Cardinality({ a \in DOMAIN xa \cap DOMAIN old.xattr : xa[a] # old.xattr[a] })
    IN IF IsNone(old) THEN Step(PutNs(st, here, new), w0, ContentItems(n, here))
       ELSE Step(PutNs(st, here, merged), w0 + B2N(differs) + wx, ContentItems(n, here))
\* the unnamed namespace exists as soon as something is put there
DoContent(st, path) ==
    IF path = <<"">> /\ "" \notin DOMAIN st.schemas[st.cur].nss
    THEN Step(PutNs(st, path, [BlankNs EXCEPT !.xref = XRef(st, path)]), 0, <<>>)
    ELSE Step(st, 0, <<>>)
\* one global definition
DoElem(st, n, path, pfx, kind, Parse(_, _)) ==
    LET ns == GetNs(st, path)
        x == Parse(n, Cx(st, path, pfx))
    IN IF ~x.ok THEN Stuck(st)
       ELSE IF Same(ns[kind], x.f.name) # {} THEN Stuck(st)     \* the first letter's case makes no difference
       ELSE Step(PutNs(st, path, [ns EXCEPT ![kind] = (x.f.name :> [x.f EXCEPT !.xref = ns.xref \o "." \o x.f.name]) @@ @]),
                 x.w, <<>>)
DoItem(st, it, multi, pfx) ==
    LET only(tag, r) == IF it.n.t # tag THEN Stuck(st) ELSE r IN
    CASE it.k = "schema" -> DoSchema(st, it.n, multi, pfx)
      [] it.k = "platform" -> DoPlatform(st, it.n)
      [] it.k = "ns" -> DoNs(st, it.n, it.path, pfx)
      [] it.k = "content" -> DoContent(st, it.path)
      [] it.k = "field" -> IF it.n.t \notin FieldKinds THEN Stuck(st)
                           ELSE DoElem(st, it.n, it.path, pfx, "fields", ParseField)
      [] it.k = "msg" -> only("message", DoElem(st, it.n, it.path, pfx, "msgs", ParseMessage))
      [] it.k = "iface" -> only("interface", DoElem(st, it.n, it.path, pfx, "ifaces", ParseInterface))
      [] it.k = "frame" -> only("frame", DoElem(st, it.n, it.path, pfx, "frames", ParseFrame))

---------------------------------------------------------------------------
(* all definitions of a schema *)
RECURSIVE NsMsgs(_)
\* as a sequence: a message is counted wherever it is
NsMsgs(ns) == FoldLeft(LAMBDA a, x : Append(a, ns.msgs[x]),
                FoldLeft(LAMBDA a, x : a \o NsMsgs(ns.nss[x]), <<>>, SetToSeq(DOMAIN ns.nss)),
                SetToSeq(DOMAIN ns.msgs))
SchemaMsgs(s) == FoldLeft(LAMBDA a, x : a \o NsMsgs(s.nss[x]), <<>>, SetToSeq(DOMAIN s.nss))
\* two messages are told apart by their ids, where allowed by their order values
IdsOk(ms, numa) ==
    \A i, j \in DOMAIN ms : i < j /\ ms[i].id = ms[j].id => numa /\ ms[i].order # ms[j].order
SchemaIdsOk(s) == \A x \in DOMAIN s.nss : IdsOk(NsMsgs(s.nss[x]), s.numa)
MsgLe(a, b) == WLt(a.id, b.id) \/ (a.id = b.id /\ a.order <= b.order)
===========================================================================
