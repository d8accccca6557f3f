------------------------------ MODULE RunPlan ------------------------------
(* Histories of runs worth trying, and the properties of histories.         *)
(*                                                                          *)
(* The abstract picture of what Runs.tla says about recorded histories:     *)
(* directories hold files, some common to all inputs and some of their own; *)
(* a run with inputs makes its files in a directory or does nothing at all. *)
(* Every history of L steps is printed; the real generators are taken       *)
(* through each of them.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

L == atoi(IOEnv.PLAN_LENGTH)

Inputs == {"good", "other", "warned", "bad", "missing"}
Makes == {"good", "other", "warned"}
Styles == {"args", "list", "prefix", "relative"}
Modes == {"help", "version", "noinput", "conflict"}
\* where to, how the documents are named, how much is said
Ways == { <<"A", "args", "quiet">>, <<"A", "list", "loud">>, <<"B", "prefix", "debug">>, <<"C", "relative", "quiet">> }
Step(do, in, way, x) == [do |-> do, in |-> in, dir |-> way[1], style |-> way[2], voice |-> way[3], x |-> x]
First == <<"A", "args", "quiet">>
Alphabet ==
       { Step("run", "good", way, "") : way \in Ways }
  \cup { Step("run", i, First, "") : i \in Inputs \ {"good"} }
  \cup { Step("run", i, First, "werr") : i \in {"good", "warned"} }
  \cup { Step("run", "good", First, m) : m \in Modes }
  \cup { Step("run", "good", First, "blocked") }
  \cup { Step("env", "", First, x) : x \in {"tamper", "remove", "extra"} }

VARIABLES hist, dirs
vars == <<hist, dirs>>
Dirs == {"A", "B", "C"}
\* files of a directory: path -> content
Files(i) == ("common" :> i) @@ (("own " \o i) :> i)
Succeeds(s) == s.in \in Makes /\ (s.x = "" \/ (s.x = "werr" /\ s.in = "good"))
Init == hist = <<>> /\ dirs = [d \in Dirs |-> <<>>]
Do(s) ==
    /\ Len(hist) < L
    /\ hist' = Append(hist, s)
    /\ dirs' = IF s.do = "run" THEN IF Succeeds(s) THEN [dirs EXCEPT ![s.dir] = Files(s.in) @@ @] ELSE dirs
               ELSE CASE s.x = "tamper" -> [dirs EXCEPT ![s.dir] = [p \in DOMAIN @ |-> "tampered"]]
                      [] s.x = "remove" -> [dirs EXCEPT ![s.dir] = [p \in DOMAIN @ \ {"common"} |-> @[p]]]
                      [] s.x = "extra" -> [dirs EXCEPT ![s.dir] = ("extra" :> "extra") @@ @]
    /\ IF Len(hist) + 1 = L THEN PrintT("PLAN " \o ToJson(hist')) ELSE TRUE
Next == \E s \in Alphabet : Do(s)
Spec == Init /\ [][Next]_vars

Last == hist[Len(hist)]
\* after a successful run the directory holds what its inputs make, whatever came before
Complete == hist = <<>> \/ Last.do = "env" \/ ~Succeeds(Last) \/ \A p \in DOMAIN Files(Last.in) : dirs[Last.dir][p] = Files(Last.in)[p]
\* files of other origin are kept
Kept == [][\A d \in Dirs : \A p \in DOMAIN dirs[d] : hist'[Len(hist')].do = "env" \/ (p \in DOMAIN dirs'[d] /\ (dirs'[d][p] = dirs[d][p] \/ p \in DOMAIN Files(hist'[Len(hist')].in)))]_vars
\* a failed run changes nothing
Untouched == [][hist'[Len(hist')].do = "env" \/ Succeeds(hist'[Len(hist')]) \/ dirs' = dirs]_vars
=============================================================================
