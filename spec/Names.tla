------------------------------- MODULE Names --------------------------------
(* Every name in the generated code stands for something which is declared. *)
(*                                                                          *)
(* What is judged is the output alone, with the rules of C++ for looking up *)
(* names: the first part in the scopes around, the others in what has been  *)
(* found, in what it extends or stands for. What the COMMS library or a     *)
(* template parameter supplies is open, it may have any member. Whatever is *)
(* found has to be declared before it is used - above in the same header or *)
(* in one of those it includes - and templates get as many arguments as     *)
(* they take, while nothing else gets any.                                  *)
EXTENDS Gen

\* headers which are there once h has been included
RECURSIVE Closure(_, _, _)
Closure(inc, done, front) ==
    IF front = {} THEN done
    ELSE LET next == UNION { Rng(inc[f]) : f \in front } IN Closure(inc, done \cup front, next \ (done \cup front))

\* what can be seen at place p of header f
Seen(V, e, f, p) == LET d == V.decl[e] IN d.f = "" \/ (IF d.f = f THEN d.p <= p ELSE d.f \in V.reach[f])
\* scopes: the innermost first
FirstIn(V, scopes, x, f, p) ==
    LET at == { k \in DOMAIN scopes : IF (scopes[k] \o x) \in DOMAIN V.decl THEN Seen(V, scopes[k] \o x, f, p) ELSE FALSE } IN
    IF at = {} THEN "" ELSE scopes[CHOOSE k \in at : \A y \in at : k <= y] \o x

Open == [found |-> "?", via |-> <<>>]
Missing == [found |-> "", via |-> <<>>]
\* via: what the parts of a qualified name have been found to be
RECURSIVE Inside(_, _, _, _, _)
RECURSIVE Supplied(_, _, _)
\* what e extends or stands for
Supplied(V, e, n) ==
    LET d == V.decl[e] IN
    IF n = 0 \/ d.b = <<>> THEN Missing
    ELSE IF d.b[1] \in {"comms", "std"} THEN Open
    ELSE LET h == FirstIn(V, d.at, d.b[1], d.f, d.p) IN
         IF h = "" \/ h = e THEN Open       \* a template parameter, or "Base"
         ELSE Inside(V, h, d.b, 2, n - 1)
\* parts k.. within e
Inside(V, e, c, k, n) ==
    IF k > Len(c) THEN [found |-> e, via |-> <<e>>]
    ELSE LET x == e \o "::" \o c[k]
             r == IF x \in DOMAIN V.decl THEN Inside(V, x, c, k + 1, n)
                  ELSE LET b == Supplied(V, e, n) IN
                       IF b.found \in {"", "?"} THEN [b EXCEPT !.via = <<>>]
                       ELSE LET q == Inside(V, b.found, c, k, n - 1) IN [q EXCEPT !.via = <<>>]
         IN [r EXCEPT !.via = <<e>> \o r.via]
Whole(V, u) ==
    LET c == [ i \in DOMAIN u.c |-> u.c[i][1] ]
        h == FirstIn(V, u.s, c[1], u.f, u.p)
    IN IF h = "" THEN Missing ELSE Inside(V, h, c, 2, 8)
\* the number of arguments; -1 unknown, -2 none given, -3 none wanted as the template itself is meant
Fits(V, u, e, a) ==
    LET t == V.decl[e].t IN
    CASE a = -3 -> t[2] >= 0
      [] a = -4 -> TRUE    \* either
      [] a = -2 -> t[1] = -2 \/ (t[1] = 0 /\ t[2] = 99) \/ (e \o "::") \in Rng(u.s)
      [] a = -1 -> t[2] >= 0
      [] OTHER -> t[1] <= a /\ a <= t[2]
\* why a name cannot be used, "" when it can
Trouble(V, u) ==
    IF u.t THEN IF u.pack = u.dots THEN "" ELSE "pack"
    ELSE LET r == Whole(V, u) IN
         IF r.found = "" THEN "undeclared"
         ELSE IF \E k \in DOMAIN r.via : ~Seen(V, r.via[k], u.f, u.p) THEN "not declared yet"
         ELSE IF \E k \in DOMAIN r.via : ~Fits(V, u, r.via[k], u.c[k][2]) THEN "arguments"
         ELSE ""
WrongNames(obs) ==
    LET N == obs.names
        V == [decl |-> N.decl, reach |-> [ f \in DOMAIN N.inc |-> Closure(N.inc, {}, {f}) ]]
        why == [ i \in DOMAIN N.use |-> Trouble(V, N.use[i]) ]
    IN UNION { Wrong(why[i] \o ": " \o N.use[i].c[1][1], FALSE, N.use[i]) : i \in { y \in DOMAIN why : why[y] # "" } }
       \cup UNION { Wrong("declared twice: " \o e, N.decl[e].k # "twice", N.decl[e].f) : e \in DOMAIN N.decl }

\* the code of another generator, which uses the code of commsdsl2comms
WrongWrapping(obs) ==
    LET N == obs.names IN
    WrongNames(obs)
    \cup UNION { Wrong("header which is not generated: " \o N.outside[i][2], FALSE, N.outside[i]) : i \in DOMAIN N.outside }
    \cup UNION { Wrong("source which is not generated: " \o N.srcs[i], N.srcs[i] \in Rng(N.have), "") : i \in DOMAIN N.srcs }
    \cup UNION { Wrong("source which is not built: " \o N.have[i], N.have[i] \in Rng(N.srcs), "") : i \in DOMAIN N.have }
    \cup UNION { Wrong("library which is not defined: " \o N.lost[i], FALSE, "") : i \in DOMAIN N.lost }
=============================================================================
