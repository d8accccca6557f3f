------------------------------- MODULE Inject -------------------------------
(* Code supplied by the user: where every snippet has to appear in the      *)
(* generated code, and what becomes of the functions it takes the place of. *)
(*                                                                          *)
(* J maps a file and a suffix to the number of the snippet (0: an empty     *)
(* file, as good as none). A snippet is expected at places <<number, file,  *)
(* place>>; the place is the chain of classes and the section or function,  *)
(* or "namespace", "top" (before any namespace), "bottom" (behind them),    *)
(* "whole" (the only thing in the file).                                    *)
EXTENDS GenFields

Snip(J, b, e) == IF b \in DOMAIN J /\ e \in DOMAIN J[b] /\ J[b][e] # 0 THEN {J[b][e]} ELSE {}
Chain(a, b) == IF a = "" THEN b ELSE a \o " " \o b
Put3(S, f, place) == { <<k, f, place>> : k \in S }

FieldFns == <<"value", "read", "write", "refresh", "length", "valid", "name">>
MsgFns == <<"read", "write", "refresh", "length", "valid", "name">>
FnsOf(kind) == IF kind = "msg" THEN MsgFns ELSE IF kind = "iface" THEN <<>> ELSE FieldFns
Lists == {"inc", "public", "protected", "private", "append"}

---------------------------------------------------------------------------
(* the code an element ends up with: its own or that of another element *)
\* the stem of the files with the code of elements
Stem(st, i, path, group, n) == "include/" \o Join(<<st.schemas[i].name>> \o path \o group \o <<Cls(n)>>, "/")
Group(kind) == IF kind = "msg" THEN <<"message">> ELSE IF kind = "iface" THEN <<>> ELSE <<"field">>
\* the element another one copies the code of
Source(st, i, el) ==
    LET other == SubSeq(el.ccf, 1, 1) = "@"
        d == Dots(el.ccf, IF other THEN 2 ELSE 1, 1)
        k == IF other THEN CHOOSE x \in DOMAIN st.schemas : st.schemas[x].name = d[1] ELSE i
        p == IF other THEN Tail(d) ELSE d
        ns == NsAt(st.schemas[k].nss, IF Len(p) = 1 THEN <<"">> ELSE Front(p))
        m == IF el.kind = "msg" THEN ns.msgs ELSE IF el.kind = "iface" THEN ns.ifaces ELSE ns.fields
    IN [i |-> k, el |-> Entry(m, Last(p)), stem |-> Stem(st, k, Front(p), Group(el.kind), Last(p))]
RECURSIVE CodeOf(_, _, _, _, _)
CodeOf(st, i, el, stem, J) ==
    LET b == stem \o ".h"
        fns == FnsOf(el.kind)
        none == [fn |-> [x \in Rng(fns) |-> {}], list |-> [x \in Lists |-> {}], body |-> {}]
        src == Source(st, i, el)
        from == IF el.ccf = "" THEN none ELSE CodeOf(st, src.i, src.el, src.stem, J)
        own(x) == IF Snip(J, b, x) # {} THEN { <<"full", k>> : k \in Snip(J, b, x) }
                  ELSE IF x = "value" THEN {} ELSE { <<"body", k>> : k \in Snip(J, b, x \o "_body") }
        at(x) == el.ovr[CHOOSE n \in DOMAIN fns : fns[n] = x]
    IN [fn |-> [x \in Rng(fns) |-> IF at(x) = 3 THEN {} ELSE IF own(x) # {} THEN own(x) ELSE from.fn[x]],
        list |-> [x \in Lists |-> from.list[x] \cup Snip(J, b, x)],
        body |-> IF Snip(J, b, "construct_body") # {} THEN Snip(J, b, "construct_body") ELSE from.body]

---------------------------------------------------------------------------
(* the places of the snippets of an element *)
FnName(kind, x) == IF kind = "msg" THEN "do" \o Cls(x) ELSE x
\* what goes into the class named cls at chain of file F
InClass(el, code, J, b, F, chain, cls) ==
    LET C == Chain(chain, "class " \o cls)
        fnplace(x, how) == IF how = "full" THEN C \o " public" ELSE C \o " function " \o FnName(el.kind, x)
        construct == Snip(J, b, "construct")
    IN UNION { { <<p[2], F, fnplace(x, p[1])>> : p \in code.fn[x] } : x \in DOMAIN code.fn }
       \cup UNION { Put3(code.list[x], F, C \o " " \o x) : x \in {"public", "protected", "private"} }
       \cup Put3(construct, F, C \o " public")
       \cup (IF construct # {} \/ el.kind = "iface" THEN {} ELSE Put3(code.body, F, C \o " function " \o cls))
\* the number of functions of a name
Count(m, C, n) == LET s == At(m, C, <<>>) IN Cardinality({ i \in DOMAIN s : s[i] = n })
\* the functions of the class, given those it has without any code: taken over,
\* kept under another name, or left out
WrongFns(el, code, J, b, F, chain, old, cls, obs) ==
    LET C0 == Chain(chain, "class " \o old)
        C1 == Chain(chain, "class " \o cls)
        m0 == At(obs.fns0, F, EmptyMap)
        m1 == At(obs.fns, F, EmptyMap)
        fns == FnsOf(el.kind)
        is(n, want) == Wrong(n \o " of " \o F, Count(m1, C1, n) = want, <<C1, Count(m1, C1, n), want>>)
        each(i) ==
            LET x == fns[i]
                n == FnName(el.kind, x)
                c == code.fn[x]
                has == IF x = "name" /\ c # {} THEN 1 ELSE Count(m0, C0, n)
            IN is(n, IF c = {} THEN has ELSE IF \E p \in c : p[1] = "body" THEN 1 ELSE 0)
               \cup is(n \o "Orig", IF c = {} \/ el.ovr[i] = 1 THEN 0 ELSE has)
        full == Snip(J, b, "construct") # {}
        made == full \/ code.body # {}
    IN UNION { each(i) : i \in DOMAIN fns \ {k \in DOMAIN fns : fns[k] = "value"} }
       \cup (IF el.kind = "iface" THEN {}
             ELSE is(cls, IF full THEN 0 ELSE IF made THEN 1 ELSE Count(m0, C0, old))
                  \cup is("constructOrig", IF made THEN Count(m0, C0, old) ELSE 0)
                  \cup is("~" \o cls, Count(m0, C0, "~" \o old)))
\* one field and all it is made of: [at: places, bad: wrong functions, orig: names of extended classes]
None3 == [at |-> {}, bad |-> {}, orig |-> {}]
Sum3(a, b) == [at |-> a.at \cup b.at, bad |-> a.bad \cup b.bad, orig |-> a.orig \cup b.orig]
RECURSIVE FieldCode(_, _, _, _, _, _, _, _, _, _)
FieldCode(cx, f, stem, F, CF, chain, cchain, ps, J, obs) ==
    LET b == stem \o ".h"
        code == CodeOf(cx.st, cx.i, f, stem, J)
        global == chain = ""
        old == Cls(f.name) \o (IF Wrapped(cx, f, ps) THEN "Field" ELSE "")
        ext == Snip(J, b, "extend")
        cls == old \o (IF ext = {} THEN "" ELSE "Orig")
        here == IF global THEN "namespace" ELSE chain \o " public"
        com == Chain(cchain, "class " \o Cls(f.name) \o "Common")
        name == { <<p[2], CF, IF p[1] = "full" THEN com \o " public" ELSE com \o " function name">> : p \in code.fn["name"] }
        own == [at |-> InClass(f, code, J, b, F, chain, cls) \cup name
                       \cup Put3(code.list["append"] \cup ext, F, here)
                       \cup (IF global THEN Put3(code.list["inc"], F, "top") ELSE {}),
                bad |-> WrongFns(f, code, J, b, F, chain, old, cls, obs),
                orig |-> IF ext = {} THEN {} ELSE {cls}]
        parts == Parts(f)
    IN FoldLeft(LAMBDA a, m : Sum3(a, FieldCode(cx, m, stem \o "/" \o Cls(m.name), F, CF, Chain(chain, "class " \o MembersOf(f)),
                                                Chain(cchain, "class " \o MembersOf(f) \o "Common"), Max({ps, f.since}), J, obs)),
                own, parts)
FieldsCode(cx, fs, stem, F, CF, chain, cchain, ps, J, obs) ==
    FoldLeft(LAMBDA a, m : Sum3(a, FieldCode(cx, m, stem \o "/" \o Cls(m.name), F, CF, chain, cchain, ps, J, obs)), None3, fs)
\* a class with fields of its own in a file of its own
ElementCode(cx, el, stem, F, CF, J, obs) ==
    LET b == stem \o ".h"
        code == CodeOf(cx.st, cx.i, el, stem, J)
        old == Cls(el.name)
        ext == Snip(J, b, "extend")
        cls == old \o (IF ext = {} THEN "" ELSE "Orig")
        ps == IF el.kind = "msg" THEN el.since ELSE 0
        own == [at |-> InClass(el, code, J, b, F, "", cls) \cup Put3(code.list["append"] \cup ext, F, "namespace") \cup Put3(code.list["inc"], F, "top"),
                bad |-> WrongFns(el, code, J, b, F, "", old, cls, obs),
                orig |-> IF ext = {} THEN {} ELSE {cls}]
    IN Sum3(own, FieldsCode(cx, el.fields, stem, F, CF, "class " \o old \o "Fields", "class " \o old \o "FieldsCommon", ps, J, obs))
FrameCode(cx, f, stem, F, CF, J, obs) ==
    LET b == stem \o ".h"
        ext == Snip(J, b, "extend")
        cls == Cls(f.name) \o (IF ext = {} THEN "" ELSE "Orig")
        own == [at |-> UNION { Put3(Snip(J, b, x), F, "class " \o cls \o " " \o x) : x \in {"public", "protected", "private"} }
                       \cup Put3(ext, F, "namespace") \cup Put3(Snip(J, b, "append"), F, "bottom"),
                bad |-> {}, orig |-> IF ext = {} THEN {} ELSE {cls}]
        ls == Cls(f.name) \o "Layers"
        layer(l) == LET fs == SelectSeq(<<"field", "escf">>, LAMBDA k : k \in DOMAIN l /\ l[k].xref = "")
                    IN FieldsCode(cx, [i \in DOMAIN fs |-> l[fs[i]]], stem \o "Layers/" \o Cls(l.name), F, CF,
                                  "class " \o ls \o " class " \o MembersOf(l), "class " \o ls \o "Common class " \o MembersOf(l) \o "Common", 0, J, obs)
    IN FoldLeft(LAMBDA a, l : IF l.kind = "payload" THEN a ELSE Sum3(a, layer(l)), own, f.layers)

---------------------------------------------------------------------------
(* files without elements of their own: options, collections, factories ... *)
OnlyAt(S) == [at |-> S, bad |-> {}, orig |-> {}]
Plain3(J, b, F, n) ==
    [at |-> Put3(Snip(J, b, "extend") \cup Snip(J, b, "append"), F, "namespace"), bad |-> {},
     orig |-> IF Snip(J, b, "extend") = {} THEN {} ELSE {n \o "Orig"}]
TextFiles == {"CMakeLists.txt", "doc/doxygen.conf", "doc/main.dox", "doc/namespaces.dox"}

\* file |-> what has to be in it
UnitCode(st, u, o, J, obs) ==
    LET cx == Around(st, u.s, o)
        orig == st.schemas[u.s].name
        ns == NsOf(st, u)
        to(parts) == Header(<<cx.main>> \o u.path \o parts)
        from(parts) == Header(<<orig>> \o u.path \o parts)
        stem(parts) == "include/" \o Join(<<orig>> \o u.path \o parts, "/")
        plain(dir, n) == to(<<dir, n>>) :> Plain3(J, from(<<dir, n>>), to(<<dir, n>>), n)
        all(s) == FoldLeft(LAMBDA a, x : a @@ x, EmptyMap, s)
        one(parts, Code(_, _, _)) ==
            LET F == to(parts)
                CF == to(Front(parts) \o <<Last(parts) \o "Common">>)
                x == Code(stem(parts), F, CF)
                b == from(parts)
            IN F :> (IF Snip(J, b, "replace") = {} THEN [x EXCEPT !.at = { t \in x.at : t[2] = F }]
                     ELSE OnlyAt(Put3(Snip(J, b, "replace"), F, "whole")))
               @@ CF :> OnlyAt({ t \in x.at : t[2] = CF })
    IN CASE u.u = "schema" ->
              all([i \in DOMAIN OptionNames |-> plain("options", OptionNames[i])])
              @@ all(PerBundle(st, u, o, LAMBDA g, side : plain("options", BundleName(g, side) \o "DynMemMsgFactoryDefaultOptions")))
              @@ to(<<"Version">>) :> OnlyAt(Put3(Snip(J, from(<<"Version">>), "append"), to(<<"Version">>), "bottom"))
              @@ [f \in TextFiles |-> OnlyAt(Put3(Snip(J, f, "append"), f, "text"))]
         [] u.u = "ns" ->
              all(PerBundle(st, u, o, LAMBDA g, side : plain("input", BundleName(g, side))))
              @@ all(PerBundle(st, u, o, LAMBDA g, side : plain("factory", BundleName(g, side) \o "DynMemMsgFactory")))
         [] u.u = "msg" -> one(<<"message", Cls(u.name)>>, LAMBDA s, F, CF : ElementCode(cx, ns.msgs[u.name], s, F, CF, J, obs))
         [] u.u = "iface" -> one(<<Cls(u.name)>>, LAMBDA s, F, CF : ElementCode(cx, ns.ifaces[u.name], s, F, CF, J, obs))
         [] u.u = "frame" -> one(<<"frame", Cls(u.name)>>, LAMBDA s, F, CF : FrameCode(cx, ns.frames[u.name], s, F, CF, J, obs))
         [] u.u = "field" -> one(<<"field", Cls(u.name)>>, LAMBDA s, F, CF : FieldCode(cx, ns.fields[u.name], s, F, CF, "", "", 0, J, obs))

---------------------------------------------------------------------------
(* files which are not snippets are copied as they are *)
Reserved == {"replace", "extend", "public", "protected", "private", "value", "read", "read_body", "write", "write_body",
    "length", "length_body", "valid", "valid_body", "refresh", "refresh_body", "name", "name_body", "inc", "append",
    "construct", "construct_body"}
\* ords: <<number, path, extension, namespace named in it>>; the main namespace
\* takes part in the change of names
Copied(st, o, ords) ==
    LET k == Len(st.schemas)
        orig == st.schemas[k].name
        main == MainNs(st, k, o)
        pre == "include/" \o orig \o "/"
        path(p) == IF orig # main /\ StartsWith(p, pre) THEN "include/" \o main \o "/" \o SubSeq(p, Len(pre) + 1, Len(p)) ELSE p
        in(n) == IF n = orig THEN main ELSE n
    IN { <<x[1], path(x[2]), IF x[4] = "" THEN "whole" ELSE "whole namespace " \o in(x[4])>> : x \in { y \in Rng(ords) : y[3] \notin Reserved } }

---------------------------------------------------------------------------
(* P23 *)
WrongCode(st, u, o, refs, job) ==
    LET over == { t[2] : t \in Copied(st, o, job.ords) }
        obs == job.obs
        fs == Rng(UnitFiles(st, u, o, refs)) \ over
        code == UnitCode(st, u, o, job.inj, obs)
        of(F) == IF F \in DOMAIN code THEN code[F] ELSE None3
        seen == Rng(obs.marks)
        each(F) ==
            LET want == of(F).at
                have == { t \in seen : t[2] = F }
                orig == Rng(At(obs.orig, F, <<>>))
                n == CHOOSE x \in of(F).orig : TRUE
            IN Wrong("missing code in " \o F, want \subseteq have, want \ have)
               \cup Wrong("code out of place in " \o F, have \subseteq want, have \ want)
               \cup Wrong("extended classes of " \o F,
                          orig = of(F).orig \/ (u.u = "schema" /\ of(F).orig # {} /\ orig = { SubSeq(n, 1, Len(n) - 4) \o "TOrig" }), <<orig, of(F).orig>>)
               \cup of(F).bad
               \cup Wrong("unaffected file " \o F, want # {} \/ F \in Rng(obs.same), "")
    IN UNION { each(F) : F \in fs }
\* nothing else is found anywhere, and nothing twice
WrongCopies(st, o, files, job) ==
    LET want == Copied(st, o, job.ords)
        over == { t[2] : t \in want }
        seen == { t \in Rng(job.obs.marks) : t[2] \in over \/ t[2] \notin files }
    IN Wrong("copied files", want \subseteq seen, want \ seen)
       \cup Wrong("code in other files", seen \subseteq want, seen \ want)
       \cup LET ms == job.obs.marks
                \* what is put behind a field may be copied by several members of one element
                tail == UNION { Snip(job.inj, b, "append") : b \in DOMAIN job.inj }
                twice == { t \in Rng(ms) : t[1] \notin tail /\ Cardinality({ i \in DOMAIN ms : ms[i] = t }) > 1 }
            IN Wrong("code repeated", twice = {}, twice)

---------------------------------------------------------------------------
(* code which the schema requires has to be there, for global elements only *)
RECURSIVE AnyForced(_)
AnyForced(f) == (\E i \in DOMAIN f.ovr : f.ovr[i] \in {1, 2}) \/ \E i \in DOMAIN Parts(f) : AnyForced(Parts(f)[i])
CodeMissing(st, J) ==
    LET lacks(i, el, stem) ==
            LET code == CodeOf(st, i, el, stem, J)
                fns == FnsOf(el.kind)
            IN \E n \in DOMAIN fns : el.ovr[n] \in {1, 2} /\ code.fn[fns[n]] = {}
        forcedIn(fs) == \E n \in DOMAIN fs : AnyForced(fs[n])
        bad(i, sp) ==
            \/ \E x \in DOMAIN sp.ns.fields : LET f == sp.ns.fields[x] IN
                  lacks(i, f, Stem(st, i, sp.path, <<"field">>, x)) \/ forcedIn(Parts(f))
            \/ \E x \in DOMAIN sp.ns.msgs : LET m == sp.ns.msgs[x] IN
                  lacks(i, m, Stem(st, i, sp.path, <<"message">>, x)) \/ forcedIn(m.fields)
            \/ \E x \in DOMAIN sp.ns.ifaces : forcedIn(sp.ns.ifaces[x].fields)
            \/ \E x \in DOMAIN sp.ns.frames : \E n \in DOMAIN sp.ns.frames[x].layers :
                  LET l == sp.ns.frames[x].layers[n] IN
                  \E k \in {"field", "escf"} \cap DOMAIN l : l[k].xref = "" /\ AnyForced(l[k])
    IN \E i \in DOMAIN st.schemas : LET sp == Spaces(st.schemas[i].nss, <<>>) IN \E k \in DOMAIN sp : bad(i, sp[k])
=============================================================================
