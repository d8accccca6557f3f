------------------------------ MODULE GenTrace ------------------------------
(* Recorded runs of a real generator, replayed on the specification.        *)
(*                                                                          *)
(* A job is one run: the documents, the options, and what the run left: the *)
(* exit status and the facts about every file it wrote. The machine reads   *)
(* the documents element by element (Protocol.tla), then goes through the   *)
(* units of the output - schemas, namespaces, elements - and compares each  *)
(* with what Gen.tla calls for.                                             *)
EXTENDS Portrait, Inject, Conds, Opts, Names, Show, Json, IOUtils

Jobs == ndJsonDeserialize(IOEnv.JOBS)

VARIABLES j, ph, di, st, todo,
          refs,      \* the global fields which are needed
          work,      \* units not looked at yet
          out        \* files called for so far
vars == <<j, ph, di, st, todo, refs, work, out>>
Job == Jobs[j]
O == Job.opt
Obs == Job.obs
Asked(p) == p \in Rng(Job.want)

Init == /\ j \in 1..Len(Jobs)
        /\ ph = "read" /\ di = 0 /\ st = NoSt /\ todo = <<>> /\ refs = {} /\ work = <<>> /\ out = {}

Say(what, x) == PrintT("MISMATCH " \o ToJson([id |-> Job.id, what |-> what, x |-> ToString(x)]))
\* every fact which is wrong is reported
Report(p, bad) == IF Asked(p) THEN \A b \in bad : Say(p \o " " \o b[1], b[2]) ELSE TRUE
End == /\ ph' = "end" /\ UNCHANGED <<j, di, st, todo, refs, work, out>>
Nothing == IF Obs.files = <<>> THEN TRUE ELSE Say("files of a refused run", Len(Obs.files))
Refused == IF Obs.status = 0 THEN Say("generated although refused", "")
           ELSE IF Obs.status # 255 THEN Say("crash", Obs.status) ELSE Nothing

NextDoc ==
    /\ ph = "read" /\ todo = <<>> /\ di < Len(Job.docs)
    /\ di' = di + 1
    /\ IF Job.docs[di + 1].bad THEN Refused /\ ph' = "end" /\ todo' = <<>>
       ELSE ph' = ph /\ todo' = <<Item("schema", Job.docs[di + 1], <<>>)>>
    /\ UNCHANGED <<j, st, refs, work, out>>
Element ==
    /\ ph = "read" /\ todo # <<>>
    /\ LET x == DoItem(st, todo[1], Job.multi, Job.pfx) IN
       IF x.ok THEN st' = x.st /\ todo' = x.todo \o Tail(todo) /\ UNCHANGED <<j, ph, di, refs, work, out>>
       ELSE Refused /\ End
\* the documents are taken: is there anything to generate, and what
Select ==
    /\ ph = "read" /\ todo = <<>> /\ di = Len(Job.docs)
    /\ IF (\E i \in DOMAIN st.schemas : ~SchemaIdsOk(st.schemas[i])) \/ Unsupported(st, O) THEN Refused /\ End
       ELSE IF IF Asked("P23") THEN CodeMissing(st, Job.inj) ELSE FALSE THEN Refused /\ End
       ELSE IF Obs.status # 0
            THEN /\ Refused /\ End
                 \* code which is not wanted does not make a run fail
                 /\ IF Asked("P23") THEN IF Obs.status0 = 0 THEN Say("P23 refused although all the code is there", Obs.status) ELSE TRUE ELSE TRUE
       ELSE LET s2 == WithIface(st)
                r2 == Needed(st)
            IN /\ st' = s2 /\ refs' = r2 /\ work' = Units(s2, r2) /\ ph' = "write"
               /\ UNCHANGED <<j, di, todo, out>>
Unit ==
    /\ ph = "write" /\ work # <<>>
    /\ LET u == work[1] IN
       /\ Report("P19", IF Asked("P19") THEN WrongMessages(st, u, O, Obs) ELSE {})
       /\ Report("P25", IF Asked("P25") THEN WrongPlaces(st, u, O, Obs, refs) ELSE {})
       /\ Report("P26", IF Asked("P26") THEN WrongDefinitions(st, u, O, Obs, refs) ELSE {})
       /\ Report("P21", IF Asked("P21") THEN WrongVersions(st, u, O, Obs, refs) ELSE {})
       /\ Report("P23", IF Asked("P23") THEN WrongCode(st, u, O, refs, Job) ELSE {})
       /\ Report("P27", IF Asked("P27") THEN WrongPortrait(st, u, O, Obs, refs, Job.app) ELSE {})
       /\ Report("P28", IF Asked("P28") THEN WrongConditions(st, u, O, Obs) ELSE {})
       /\ Report("P29", IF Asked("P29") THEN WrongOptions(st, u, O, Obs, refs) ELSE {})
       /\ Report("P32", IF Asked("P32") THEN WrongShown(st, u, O, Obs) ELSE {})
       /\ out' = out \cup (IF Asked("P27") THEN Spoken(st, u, O, Job.app) ELSE Rng(UnitFiles(st, u, O, refs)))
       /\ work' = Tail(work)
    /\ UNCHANGED <<j, ph, di, st, todo, refs>>
Finish ==
    /\ ph = "write" /\ work = <<>>
    /\ Report("P24", IF Asked("P24") THEN WrongFiles(st, O, Obs, out) \cup WrongIncludes(st, O, Obs) ELSE {})
    /\ Report("P30", IF Asked("P30") THEN WrongNames(Obs) ELSE {})
    /\ Report("P31", IF Asked("P31") THEN IF Obs.comms = 0 THEN WrongWrapping(Obs) ELSE {} ELSE {})
    /\ Report("P23", IF Asked("P23") THEN WrongCopies(st, O, out, Job) ELSE {})
    /\ Report("P26", IF Asked("P26") THEN Wrong("functions without a type", Obs.odd = <<>>, Obs.odd) ELSE {})
    /\ Report("P23", IF Asked("P23") THEN Wrong("functions without a type", Obs.odd = <<>>, Obs.odd) ELSE {})
    /\ Report("P27", IF Asked("P27") THEN WrongExtras(Obs, out) ELSE {})
    /\ Report("P25", IF Asked("P25") THEN WrongFiles(st, O, Obs, out) \cup WrongUses(st, O, Obs) ELSE {})
    /\ End
Next == NextDoc \/ Element \/ Select \/ Unit \/ Finish
Spec == Init /\ [][Next]_vars
\* nothing is called for twice with different meanings: every unit has files of its own
TypeOk == ph \in {"read", "write", "end"}
=============================================================================
