------------------------------ MODULE Explore ------------------------------
(* Every history of calls, up to a length, over an alphabet of documents.   *)
(*                                                                          *)
(* Here a call is one step. The properties are invariants of every state    *)
(* reached, and every maximal history is printed: the driver executes it on *)
(* the real parser and validates what happened with Trace.                  *)
EXTENDS Props, Json, IOUtils

Data == ndJsonDeserialize(IOEnv.DOCS)
Conf == Data[1]                                  \* [depth, multi]
Docs == SubSeq(Data, 2, Len(Data))

VARIABLES hist, loaded, di, st, valid, stop
vars == <<hist, loaded, di, st, valid, stop>>

RECURSIVE Take(_, _)
\* all elements of one document
Take(x, todo) ==
    IF todo = <<>> THEN [ok |-> TRUE, st |-> x]
    ELSE LET y == DoItem(x, todo[1], Conf.multi, <<>>) IN
         IF ~y.ok THEN [ok |-> FALSE, st |-> x] ELSE Take(y.st, y.todo \o Tail(todo))
RECURSIVE TakeDocs(_, _, _)
TakeDocs(x, ds, i) ==
    IF i > Len(ds) THEN [ok |-> TRUE, st |-> x]
    ELSE LET y == Take(x, <<Item("schema", Docs[ds[i]], <<>>)>>) IN
         IF ~y.ok THEN y ELSE TakeDocs(y.st, ds, i + 1)

Init == hist = <<>> /\ loaded = <<>> /\ di = 0 /\ st = NoSt /\ valid = FALSE /\ stop = FALSE
Done(h, s) == s \/ Len(h) = Conf.depth => PrintT("HIST " \o ToJson(h))
Open == ~stop /\ Len(hist) < Conf.depth
Parse(d) ==
    /\ Open
    /\ LET ok == ~valid /\ ~Docs[d].bad IN
       /\ loaded' = IF ok THEN Append(loaded, d) ELSE loaded
       /\ stop' = ~ok
    /\ hist' = Append(hist, d)
    /\ UNCHANGED <<di, st, valid>>
    /\ Done(hist', stop')
Validate ==
    /\ Open
    /\ hist' = Append(hist, 0)
    /\ IF valid THEN UNCHANGED <<loaded, di, st, valid, stop>>
       ELSE LET x == TakeDocs(st, loaded, di + 1)
                ok == loaded # <<>> /\ x.ok /\ \A i \in DOMAIN x.st.schemas : SchemaIdsOk(x.st.schemas[i])
            IN /\ st' = x.st /\ di' = Len(loaded) /\ valid' = ok /\ stop' = ~ok
               /\ UNCHANGED loaded
    /\ Done(hist', stop')
Next == Validate \/ \E d \in DOMAIN Docs : Parse(d)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Invariant == Broken(st) = {}
Ids == valid => \A i \in DOMAIN st.schemas : SchemaIdsOk(st.schemas[i])
\* P01: one schema per name that a loaded document gave, no others
OneEach ==
    valid => { st.schemas[i].name : i \in DOMAIN st.schemas }
             = { P(Docs[d], "name").s : d \in { d \in Rng(loaded) : Has(Docs[d], "name") } }
\* P01: what a later document says about its schema is what the first one said
HeadersAgree ==
    valid => \A d \in Rng(loaded) : Has(Docs[d], "name") =>
        LET s == st.schemas[SchemaIdx(st, P(Docs[d], "name").s)] IN
        /\ Has(Docs[d], "version") => P(Docs[d], "version").u = s.version
        /\ Has(Docs[d], "id") => P(Docs[d], "id").u = s.id
        /\ Has(Docs[d], "dslVersion") => P(Docs[d], "dslVersion").u = s.dsl
\* P01: several schemas only where they were asked for and the language allows them
Several == Len(st.schemas) > 1 => Conf.multi
\* P01: after validation nothing more comes in
Frozen == [][valid => UNCHANGED <<st, loaded, valid>>]_vars
\* P01: nothing is forgotten
Grows == [][\A i \in DOMAIN st.schemas :
              /\ st'.schemas[i].name = st.schemas[i].name
              /\ \A x \in DOMAIN st.schemas[i].nss :
                    \A k \in {"fields", "msgs", "ifaces", "frames"} :
                        DOMAIN st.schemas[i].nss[x][k] \subseteq DOMAIN st'.schemas[i].nss[x][k]]_vars
===========================================================================
