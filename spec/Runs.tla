-------------------------------- MODULE Runs --------------------------------
(* Histories of generator runs.                                             *)
(*                                                                          *)
(* A job is one history: sets of documents, and steps. A step is a run of a *)
(* generator on one of the sets into one of the directories, or something   *)
(* the surroundings do to a directory. The machine reads the documents,     *)
(* then takes the steps; its state is what is known about the directories   *)
(* (path and content of each file) and what was made from which inputs.     *)
(* How the documents are named on the command line, where the output goes,  *)
(* what is in there, and how much is said meanwhile are no part of the      *)
(* inputs, so they must not show in what is made.                           *)
EXTENDS GenFields, Json, IOUtils

Jobs == ndJsonDeserialize(IOEnv.JOBS)

VARIABLES j, ph,
          in,      \* the set of documents being read
          di, st, todo, w,
          takes,   \* verdicts: for each set whether it is taken, warnings, what it describes
          pos,     \* steps done
          dirs,    \* directory -> set of <<path, content>>
          made     \* inputs -> what a run with them made
vars == <<j, ph, in, di, st, todo, w, takes, pos, dirs, made>>
Job == Jobs[j]
Asked(p) == p \in Rng(Job.want)
Doc(i) == Job.ins[in].docs[i]

Init == /\ j \in 1..Len(Jobs)
        /\ ph = "read" /\ in = 1 /\ di = 0 /\ st = NoSt /\ todo = <<>> /\ w = 0
        /\ takes = <<>> /\ pos = 0 /\ made = <<>> /\ dirs = <<>>

Say(p, what, x) == IF Asked(p) THEN PrintT("MISMATCH " \o ToJson([id |-> Job.id, what |-> p \o " " \o what, x |-> ToString(<<pos + 1, x>>)])) ELSE TRUE
Check(p, what, cond, x) == IF cond THEN TRUE ELSE Say(p, what, x)

---------------------------------------------------------------------------
(* reading *)
\* what selections can be made of
Names(f(_), s) == LET sp == Spaces(s.nss, <<>>) IN UNION { { sp[k].path \o <<m>> : m \in f(sp[k].ns) } : k \in DOMAIN sp }
Gist(x) == [i \in DOMAIN x.schemas |->
              [name |-> x.schemas[i].name, version |-> x.schemas[i].version, dsl |-> x.schemas[i].dsl, platforms |-> DOMAIN x.schemas[i].platforms,
               msgs |-> Names(LAMBDA n : DOMAIN n.msgs, x.schemas[i]), ifaces |-> Names(LAMBDA n : DOMAIN n.ifaces, x.schemas[i])]]
Verdict(ok) == /\ takes' = Append(takes, [ok |-> ok, w |-> w, st |-> [schemas |-> IF ok THEN Gist(st) ELSE <<>>]])
               /\ in' = in + 1 /\ di' = 0 /\ st' = NoSt /\ todo' = <<>> /\ w' = 0
               /\ UNCHANGED <<j, ph, pos, dirs, made>>
NextDoc ==
    /\ ph = "read" /\ in <= Len(Job.ins) /\ todo = <<>> /\ di < Len(Job.ins[in].docs)
    /\ IF Doc(di + 1).bad THEN Verdict(FALSE)
       ELSE /\ di' = di + 1 /\ todo' = <<Item("schema", Doc(di + 1), <<>>)>>
            /\ UNCHANGED <<j, ph, in, st, w, takes, pos, dirs, made>>
Element ==
    /\ ph = "read" /\ in <= Len(Job.ins) /\ todo # <<>>
    /\ LET x == DoItem(st, todo[1], Job.ins[in].multi, <<>>) IN
       IF x.ok THEN /\ st' = x.st /\ todo' = x.todo \o Tail(todo) /\ w' = w + x.w
                    /\ UNCHANGED <<j, ph, in, di, takes, pos, dirs, made>>
       ELSE Verdict(FALSE)
AllRead ==
    /\ ph = "read" /\ in <= Len(Job.ins) /\ todo = <<>> /\ di = Len(Job.ins[in].docs)
    /\ Verdict(\A i \in DOMAIN st.schemas : SchemaIdsOk(st.schemas[i]))
Start == /\ ph = "read" /\ in > Len(Job.ins) /\ ph' = "run"
         /\ UNCHANGED <<j, in, di, st, todo, w, takes, pos, dirs, made>>

---------------------------------------------------------------------------
(* what is asked for and does not exist *)
Named(x, p) == LET n == Len(x.schemas) IN
    IF p[1] = "@" THEN \E i \in 1..n : x.schemas[i].name = p[2] /\ SubSeq(p, 3, Len(p)) \in x.schemas[i].msgs
    ELSE p \in x.schemas[n].msgs
Missing(x, o) ==
    \/ \E i \in DOMAIN o.bundles : \E k \in DOMAIN o.bundles[i][2] : ~Named(x, o.bundles[i][2][k])
    \/ \E i \in DOMAIN o.msgs : ~Named(x, o.msgs[i])
    \/ o.plat # "" /\ o.plat \notin x.schemas[Len(x.schemas)].platforms
    \/ o.iface # <<>> /\ o.iface \notin x.schemas[Len(x.schemas)].ifaces
    \/ o.plat # "" /\ o.msgs # <<>>

(* directories *)
Paths(d) == { e[1] : e \in d }
With(d, m) == LET ps == Paths(m) IN m \cup { e \in d : e[1] \notin ps }
In(d) == IF d \in DOMAIN dirs THEN dirs[d] ELSE {}
Key(s) == <<s.in, s.app, s.opt>>

Surroundings ==
    /\ ph = "run" /\ pos < Len(Job.steps) /\ Job.steps[pos + 1].do = "env"
    /\ LET s == Job.steps[pos + 1] IN dirs' = (s.dir :> Rng(s.files)) @@ dirs
    /\ pos' = pos + 1
    /\ UNCHANGED <<j, ph, in, di, st, todo, w, takes, made>>

Unchanged(s) == Rng(s.after) = In(s.dir)
Diff(s, want) == LET is == Rng(s.after) IN <<{ e[1] : e \in is \ want }, { e[1] : e \in want \ is }>>
\* a run which is not to make anything
Fails(s, why) == /\ Check("P22", "exit status of a run with " \o why, s.status # 0, s.status)
                 /\ Check("P22", "output of a run with " \o why, Unchanged(s), Diff(s, In(s.dir)))
Run ==
    /\ ph = "run" /\ pos < Len(Job.steps) /\ Job.steps[pos + 1].do = "run"
    /\ LET s == Job.steps[pos + 1]
           t == takes[s.in]
           k == Key(s)
           known == k \in DOMAIN made
       IN /\ Check("P16", "crash", s.status \in {0, 254, 255}, s.status)
          /\ Check("P16", "errors and exit status", (s.status = 0) = (s.errors = 0), <<s.status, s.errors>>)
          /\ Check("P16", "warnings as errors", ~s.werr \/ s.status # 0 \/ ~t.ok \/ t.w = 0, s.warns)
          /\ Check("P16", "number of warnings", s.status # 0 \/ s.mode # "" \/ s.warns >= t.w, <<s.warns, t.w>>)
          /\ IF s.mode \in {"help", "version"}
             THEN Check("P22", "exit status of a run which only informs", s.status = 0, s.status)
                  /\ Check("P22", "output of a run which only informs", Unchanged(s), Diff(s, In(s.dir)))
             ELSE IF s.mode # "" THEN Fails(s, s.mode)
             ELSE IF ~t.ok THEN Fails(s, "a refused schema")
             ELSE IF Unsupported(t.st, s.opt) THEN Fails(s, "an impossible version")
             ELSE IF Missing(t.st, s.opt) THEN Fails(s, "an impossible selection")
             ELSE IF known /\ made[k].status # 0 THEN Fails(s, "inputs which were refused before")
             ELSE IF s.werr /\ t.w > 0 THEN Fails(s, "warnings as errors")
             ELSE IF s.werr /\ known /\ made[k].warns > 0 THEN TRUE   \* warnings of the writing itself come too late
             ELSE IF s.blocked # <<>>
             THEN \* the paths which cannot be written
                  LET hit == { p \in Rng(s.blocked) : known /\ \E e \in made[k].files : e[1] = p \/ StartsWith(e[1], p \o "/") }
                  IN Check("P22", "exit status when a file cannot be written", hit = {} \/ s.status # 0, hit)
             ELSE IF ~known THEN Check("P22", "output of a failed run", s.status = 0 \/ Unchanged(s), Diff(s, In(s.dir)))
             ELSE /\ Check("P20", "exit status of a repeated run", s.status = 0, s.status)
                  /\ Check("P20", "output of a repeated run", Rng(s.after) = With(In(s.dir), made[k].files), Diff(s, With(In(s.dir), made[k].files)))
          /\ dirs' = (s.dir :> Rng(s.after)) @@ dirs
          /\ made' = IF ~known /\ s.mode = "" /\ s.blocked = <<>> /\ ~s.werr /\ In(s.dir) = {}
                     THEN (k :> [files |-> Rng(s.after), status |-> s.status, warns |-> s.warns]) @@ made ELSE made
    /\ pos' = pos + 1
    /\ UNCHANGED <<j, ph, in, di, st, todo, w, takes>>
Finish == ph = "run" /\ pos = Len(Job.steps) /\ ph' = "end" /\ UNCHANGED <<j, in, di, st, todo, w, takes, pos, dirs, made>>
Next == NextDoc \/ Element \/ AllRead \/ Start \/ Surroundings \/ Run \/ Finish
Spec == Init /\ [][Next]_vars
\* what is made of something is never made differently
Stable == [][\A k \in DOMAIN made : made'[k] = made[k]]_vars
TypeOk == ph \in {"read", "run", "end"} /\ pos \in 0..Len(Job.steps)
=============================================================================
