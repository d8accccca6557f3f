------------------------------- MODULE Trace -------------------------------
(* Recorded runs of the real parser, replayed on the specification.         *)
(*                                                                          *)
(* A job is one run: documents, the calls made on a parser, and what was    *)
(* observed - the result of each call, errors and warnings reported during  *)
(* it, and the parsed model at the end. Every job is one behaviour of the   *)
(* machine below, which goes through the elements of the documents one by   *)
(* one; whatever it does not explain is printed and counted.                *)
EXTENDS Props, Json, IOUtils

Jobs == ndJsonDeserialize(IOEnv.JOBS)

VARIABLES j,        \* the job
          pc,       \* the call being executed
          loaded,   \* documents taken so far
          di,       \* how many of them were processed
          st, todo, w,
          valid,    \* validated
          stop      \* a call failed: what follows is not determined
vars == <<j, pc, loaded, di, st, todo, w, valid, stop>>

Job == Jobs[j]
Op == Job.ops[pc]
Init == /\ j \in 1..Len(Jobs)
        /\ pc = 1 /\ loaded = <<>> /\ di = 0 /\ st = NoSt /\ todo = <<>> /\ w = 0
        /\ valid = FALSE /\ stop = FALSE

Say(what, x) == PrintT("MISMATCH " \o ToJson([id |-> Job.id, what |-> what, call |-> pc, model |-> x]))
\* observations of call pc against what the model says
Judge(res, model, warns) ==
    LET o == Job.obs[pc] IN
    IF o.crash THEN Say("crash", res)
    ELSE IF o.res # res THEN Say(IF res THEN "rejected" ELSE "accepted", model)
    ELSE IF o.err = res THEN Say(IF res THEN "error reported on acceptance" ELSE "rejected without error", "")
    ELSE IF ~res THEN TRUE
    ELSE IF warns >= 0 /\ o.warn # warns THEN Say("warnings", warns)
    ELSE IF model = <<>> THEN TRUE
    ELSE IF o.schemas # model THEN Say("model", model)
    ELSE IF ~\A i \in DOMAIN st.schemas : ListingOk(st.schemas[i], o.all[i]) THEN Say("listing", "")
    ELSE TRUE
Face(x) == [i \in DOMAIN x.schemas |-> ProjSchema(x.schemas[i])]
Return(res) == /\ pc' = pc + 1 /\ stop' = ~res /\ UNCHANGED <<j>>

\* documents beyond the lexical layer of the model: whatever the verdict, there is one
OpaqueCall ==
    /\ Job.skip /\ ~stop /\ pc <= Len(Job.ops)
    /\ LET o == Job.obs[pc] IN
       /\ IF o.crash THEN Say("crash", "any") ELSE IF o.err = o.res THEN Say("verdict and errors disagree", "") ELSE TRUE
       /\ Return(~o.crash /\ o.res)
    /\ UNCHANGED <<loaded, di, st, todo, w, valid>>
ParseCall ==
    /\ ~Job.skip /\ ~stop /\ pc <= Len(Job.ops) /\ Op.op = "P"
    /\ LET ok == ~valid /\ ~Job.docs[Op.d].bad IN
       /\ Judge(ok, <<>>, 0)
       /\ loaded' = IF ok THEN Append(loaded, Op.d) ELSE loaded
       /\ Return(ok)
    /\ UNCHANGED <<di, st, todo, w, valid>>
\* validation takes document after document, element after element
Running == ~Job.skip /\ ~stop /\ pc <= Len(Job.ops) /\ Op.op = "V" /\ ~valid
NextDoc ==
    /\ Running /\ todo = <<>> /\ di < Len(loaded)
    /\ di' = di + 1
    /\ todo' = <<Item("schema", Job.docs[loaded[di + 1]], <<>>)>>
    /\ UNCHANGED <<j, pc, loaded, st, w, valid, stop>>
Element ==
    /\ Running /\ todo # <<>>
    /\ LET x == DoItem(st, todo[1], Job.multi, Job.pfx) IN
       IF x.ok
       THEN /\ st' = x.st /\ w' = w + x.w /\ todo' = x.todo \o Tail(todo)
            /\ UNCHANGED <<j, pc, loaded, di, valid, stop>>
       ELSE /\ Judge(FALSE, [at |-> todo[1].n.t, left |-> Len(todo)], -1)
            /\ Return(FALSE)
            /\ UNCHANGED <<loaded, di, st, todo, w, valid>>
Finish ==
    /\ Running /\ todo = <<>> /\ di = Len(loaded)
    /\ LET ok == loaded # <<>> /\ \A i \in DOMAIN st.schemas : SchemaIdsOk(st.schemas[i]) IN
       /\ IF ok THEN Judge(TRUE, Face(st), w) ELSE Judge(FALSE, <<"end">>, -1)
       /\ valid' = ok
       /\ Return(ok)
    /\ UNCHANGED <<loaded, di, st, todo, w>>
Again ==
    /\ ~Job.skip /\ ~stop /\ pc <= Len(Job.ops) /\ Op.op = "V" /\ valid
    /\ Judge(TRUE, Face(st), 0) /\ Return(TRUE)
    /\ UNCHANGED <<loaded, di, st, todo, w, valid>>
Next == OpaqueCall \/ ParseCall \/ NextDoc \/ Element \/ Finish \/ Again
Spec == Init /\ [][Next]_vars

\* the properties hold whenever a document has been taken completely
Invariant == todo = <<>> /\ di > 0 => LET b == Broken(st) IN b = {} \/ Say("invariant", b)
Accepted == valid => \A i \in DOMAIN st.schemas : SchemaIdsOk(st.schemas[i])
===========================================================================
