-------------------------------- MODULE Conds --------------------------------
(* What the code generated for conditions does: when an optional field is   *)
(* there, when a composite or a message is valid, when reading is refused,  *)
(* what a new message starts with, and how the parts which depend on others *)
(* are read and kept up to date.                                            *)
(*                                                                          *)
(* A condition is a tree of atoms: conjunctions and disjunctions are sets,  *)
(* so neither order, repetition nor brackets matter. A field on the way to  *)
(* a compared value which may be missing has to exist for the condition to  *)
(* be true.                                                                 *)
EXTENDS GenFields

CNode(op, x, v, d, c) == [op |-> op, x |-> x, v |-> v, d |-> d, c |-> c]
CYes == CNode("yes", "", W0, W0, {})
CNo == CNode("no", "", W0, W0, {})
CAtom(x, v, d) == CNode("is", x, v, d, {})
CPlain(x) == CAtom(x, W0, W0)
CMany(op, S) ==
    LET unit == IF op = "and" THEN CYes ELSE CNo
        zero == IF op = "and" THEN CNo ELSE CYes
        flat == UNION { IF n.op = op THEN n.c ELSE {n} : n \in S } \ {unit}
    IN IF zero \in flat THEN zero
       ELSE IF flat = {} THEN unit
       ELSE IF Cardinality(flat) = 1 THEN CHOOSE n \in flat : TRUE
       ELSE CNode(op, "", W0, W0, flat)
CAll(S) == CMany("and", S)
CAny(S) == CMany("or", S)
CNot(n) == IF n = CYes THEN CNo ELSE IF n = CNo THEN CYes
           ELSE IF n.op = "not" THEN CHOOSE k \in n.c : TRUE ELSE CNode("not", "", W0, W0, {n})
\* an observed tree; which atoms compare floating point numbers is known from the declared one
RECURSIVE CFloats(_)
CFloats(n) == (IF n.op = "is" /\ n.d # W0 THEN {n.x} ELSE {}) \cup UNION { CFloats(k) : k \in n.c }
RECURSIVE CSeen(_, _)
CSeen(n, fl) ==
    LET kids == { CSeen(n.c[i], fl) : i \in DOMAIN n.c }
    IN CASE n.op \in {"and", "or"} -> CMany(n.op, kids)
         [] n.op = "not" -> CNot(CHOOSE k \in kids : TRUE)
         [] OTHER -> CNode(n.op, n.x, IF n.x \in fl THEN W0 ELSE n.v, IF n.x \in fl THEN n.d ELSE W0, {})
SameCond(seen, want) == CSeen(seen, CFloats(want)) = want

---------------------------------------------------------------------------
(* the way to a value: which fields have to exist, how it is reached, the   *)
(* type it has                                                              *)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(cx, f, path, at, ty, ps) ==
    LET w == Wrapped(cx, f, ps)
        at1 == IF w THEN at \o ".field()" ELSE at
        ty1 == IF w THEN ty \o "Field::" ELSE ty
        own == IF w THEN {CPlain(at \o ".doesExist()")} ELSE {}
        more(x) == [x EXCEPT !.need = @ \cup own]
        end == [need |-> own, at |-> at1, ty |-> ty1, f |-> f, cx |-> cx, rest |-> path]
        inner(m, a, t) == more(Walk(cx, m, Tail(path), a, t, Max({ps, f.since})))
    IN CASE f.kind = "ref" -> more(Walk(There(cx, f.ref.xref), f.ref, path, at1, ty1, 0))
         [] f.kind = "optional" ->
              LET x == IF path = <<>> THEN end
                       ELSE IF f.field.xref # "" THEN Walk(There(cx, f.field.xref), f.field, Tail(path), at1 \o ".field()", ty1 \o "Field::", 0)
                       ELSE inner(f.field, at1 \o ".field()", ty1 \o "Field::")
              IN [x EXCEPT !.need = @ \cup own \cup {CPlain(at1 \o ".doesExist()")}]
         [] f.kind \in {"bundle", "bitfield"} /\ path # <<>> ->
              LET m == MemberNamed(f.members, path[1])
              IN inner(m, at1 \o ".field_" \o Acc(m.name) \o "()", ty1 \o "Field_" \o Acc(m.name) \o "::")
         [] OTHER -> end
\* the field at the start of an operand: among the siblings, or in an interface
Sigils == {"#", "?"}
Bare(path) == IF path[1] # "" /\ SubSeq(path[1], 1, 1) \in Sigils THEN <<SubSeq(path[1], 2, Len(path[1]))>> \o Tail(path) ELSE path
Sigil(path) == IF path[1] # "" /\ SubSeq(path[1], 1, 1) \in Sigils THEN SubSeq(path[1], 1, 1) ELSE ""
IfaceMember(cx, path) ==
    LET sp == Spaces(cx.st.schemas[cx.i].nss, <<>>)
        all == UNION { UNION { Rng(sp[k].ns.ifaces[x].fields) : x \in DOMAIN sp[k].ns.ifaces } : k \in DOMAIN sp }
    IN CHOOSE f \in all : f.name = path[1] /\ InnerRef(f, Tail(path)).k # "none"
Operand(cx, r, sibs, ps) ==
    LET p == Bare(r.path)
        acc == Acc(p[1]) IN
    IF r.pre = "%" THEN Walk(cx, IfaceMember(cx, p), Tail(p), "Base::transportField_" \o acc \o "()", "Base::TransportField_" \o acc \o "::", 0)
    ELSE Walk(cx, MemberNamed(sibs, p[1]), Tail(p), "field_" \o acc \o "()", "Field_" \o acc \o "::", ps)
\* the number or text a field is compared to
ValCx(cx) == Cx([cx.st EXCEPT !.cur = cx.i], <<>>, <<>>)
Compared(cx, f, v) ==
    LET c == ValCx(cx)
        num(n) == CAtom("", IF WLt(WMaxI, n) THEN WSub(n, WU64) ELSE n, W0)
    IN IF f.sem \in {SemTypes["version"], SemTypes["length"]} THEN num(v.i.v)
       ELSE CASE f.kind = "int" -> num(IntVal(c, f.type, f.specials, v).v)
              [] f.kind = "enum" -> num(IntVal(c, f.type, f.vals, v).v)
              [] f.kind = "set" -> CAtom("", IF v.rf THEN RefVal(c, v, FieldNum).v ELSE v.i.v, W0)
              [] f.kind = "float" -> CAtom("", W0, FpVal(c, f.specials, v, TRUE).v)
              [] OTHER -> CPlain("(\"" \o (IF v.x.k = "lit" THEN v.x.s ELSE LET g == FindField(c, v.x.r) IN g.def) \o "\")")
CastOf(w) == IF w.f.kind = "string" THEN "" ELSE w.ty \o "ValueType"
RECURSIVE CTree(_, _, _, _)
CTree(cx, t, sibs, ps) ==
    IF t.t # "expr" THEN LET S == { CTree(cx, t.c[i], sibs, ps) : i \in DOMAIN t.c } IN IF t.t = "and" THEN CAll(S) ELSE CAny(S)
    ELSE LET l == t.cd.l
             r == t.cd.r
             op == IF t.cd.op = "=" THEN "==" ELSE t.cd.op
         IN IF t.cd.op \in {"", "!"}
            THEN LET w == Operand(cx, r, sibs, ps)
                     is == IF Sigil(r.path) = "?" THEN CAll(w.need) ELSE CPlain(w.at \o ".getBitValue_" \o w.rest[1] \o "()")
                     no == t.cd.op = "!"
                 IN IF Sigil(r.path) = "?" THEN (IF no THEN CNot(is) ELSE is)
                    ELSE CAll(w.need \cup {IF no THEN CNot(is) ELSE is})
            ELSE LET w == Operand(cx, l, sibs, ps)
                     left == w.at \o ".getValue()"
                 IN IF Sigil(l.path) = "#" THEN CAll(w.need \cup {CAtom(left \o ".size()" \o op, r.i.v, W0)})
                    ELSE IF r.pre \in {"$", "%"}
                    THEN LET v == Operand(cx, r, sibs, ps)
                         IN CAll(w.need \cup v.need \cup {CPlain(left \o op \o CastOf(w) \o "(" \o v.at \o ".getValue())")})
                    ELSE LET v == Compared(cx, w.f, r)
                         IN CAll(w.need \cup {[v EXCEPT !.x = left \o op \o CastOf(w) \o @]})
\* what a new message is given: bits and values of the interface's fields, in order
RECURSIVE Given(_, _)
Given(cx, t) ==
    IF t.t # "expr" THEN FoldLeft(LAMBDA a, k : a \o Given(cx, k), <<>>, t.c)
    ELSE IF t.cd.op # "="
    THEN LET w == Operand(cx, t.cd.r, <<>>, 0)
         IN << CNode("set", w.at \o ".setBitValue_" \o w.rest[1] \o "(" \o (IF t.cd.op = "" THEN "true" ELSE "false") \o ")", W0, W0, {}) >>
    ELSE LET w == Operand(cx, t.cd.l, <<>>, 0)
             left == w.at \o ".value()="
         IN IF t.cd.r.pre = "%" THEN << CNode("set", left \o w.ty \o "ValueType(" \o Operand(cx, t.cd.r, <<>>, 0).at \o ".getValue())", W0, W0, {}) >>
            ELSE LET v == Compared(cx, w.f, t.cd.r) IN << CNode("set", left \o w.ty \o "ValueType" \o v.x, v.v, v.d, {}) >>

---------------------------------------------------------------------------
(* parts which depend on the ones before them *)
DetachedOf(f) ==
    CASE f.kind \in {"string", "data"} -> IF f.detp = "" THEN <<>> ELSE << <<f.detp, "forceReadLength">> >>
      [] f.kind = "list" ->
            (IF f.dcp = "" THEN <<>> ELSE << <<f.dcp, "forceReadElemCount">> >>)
            \o (IF f.dlp = "" THEN <<>> ELSE << <<f.dlp, "forceReadLength">> >>)
            \o (IF f.delp = "" THEN <<>> ELSE << <<f.delp, "forceReadElemLength">> >>)
      [] OTHER -> <<>>
Depends(f) == IF f.kind = "optional" THEN HasCond(f.cond) ELSE DetachedOf(f) # <<>>
NoConds == [valid |-> CNode("yes", "", W0, W0, <<>>), refresh |-> <<>>, read |-> <<>>, readc |-> CNode("yes", "", W0, W0, <<>>),
            fn |-> EmptyMap, prep |-> EmptyMap, start |-> <<>>]
NoFn == [k |-> "", x |-> <<>>, c |-> CNode("yes", "", W0, W0, <<>>)]
SibPath(p) == [pre |-> "$", path |-> Dots(p, 1, 1)]
\* the order in which members are read
Steps(fs, base) ==
    LET ks == SelectSeq([i \in DOMAIN fs |-> i], LAMBDA i : Depends(fs[i]))
        later == SelectSeq(ks, LAMBDA i : i > 1)
        n(i) == Acc(fs[i].name)
        step(k) == <<IF k = 1 THEN "until " \o n(later[k]) ELSE "from " \o n(later[k - 1]) \o " until " \o n(later[k]), "check", "prep " \o n(later[k])>>
    IN IF ks = <<>> THEN <<>>
       ELSE (IF ks[1] = 1 THEN <<"prep " \o n(1)>> ELSE <<>>)
            \o FoldLeft(LAMBDA a, k : a \o step(k), <<>>, [k \in DOMAIN later |-> k])
            \o <<IF later = <<>> THEN "all" ELSE "from " \o n(later[Len(later)])>>
\* fs - members of the class at sc, ps - since when it exists
WrongParts(cx, fs, sc, ps, seen) ==
    LET ks == SelectSeq([i \in DOMAIN fs |-> i], LAMBDA i : Depends(fs[i]))
        fn(i) == At(seen.fn, Acc(fs[i].name), NoFn)
        pr(i) == At(seen.prep, Acc(fs[i].name), <<>>)
        own(i) == Walk(cx, fs[i], <<>>, "field_" \o Acc(fs[i].name) \o "()", "", ps)
        \* the optional itself, which may be within the one for versions
        bad(i) ==
            LET f == fs[i]
                what == Acc(f.name) \o " of " \o sc
                at == "field_" \o Acc(f.name) \o "()" \o (IF Wrapped(cx, f, ps) THEN ".field()" ELSE "")
            IN IF f.kind = "optional"
               THEN LET want == CTree(cx, f.cond, fs, ps) IN
                    Wrong("condition of " \o what, fn(i).k = "mode" /\ fn(i).x = <<at>> /\ SameCond(fn(i).c, want), <<fn(i), want>>)
                    \cup Wrong("preparation of " \o what, pr(i) = << [c |-> NoFn.c, x |-> "refresh_" \o Acc(f.name) \o "()"] >>, pr(i))
               ELSE LET ds == DetachedOf(f)
                        w(k) == Operand(cx, SibPath(ds[k][1]), fs, ps)
                        one(k) == /\ SameCond(pr(i)[k].c, CAll(own(i).need \cup w(k).need))
                                  /\ pr(i)[k].x = at \o "." \o ds[k][2] \o "(" \o w(k).at \o ".getValue())"
                        \* the fields which keep the size
                        keeps == { w(k).at : k \in DOMAIN ds }
                    IN Wrong("preparation of " \o what, Len(pr(i)) = Len(ds) /\ \A k \in DOMAIN ds : one(k), <<pr(i), { w(k).at : k \in DOMAIN ds }>>)
                       \cup Wrong("refresh of " \o what, fn(i).k = "length" /\ \A k \in keeps : k \in Rng(fn(i).x) /\ (k \o ".getValue()") \in Rng(fn(i).x), <<fn(i), keeps>>)
        names == { Acc(fs[ks[k]].name) : k \in DOMAIN ks }
    IN UNION { bad(ks[k]) : k \in DOMAIN ks }
       \cup Wrong("what is refreshed in " \o sc, Rng(seen.refresh) = names /\ Len(seen.refresh) = Cardinality(names), <<seen.refresh, names>>)
       \cup Wrong("functions of " \o sc, DOMAIN seen.fn = names /\ DOMAIN seen.prep = names, <<DOMAIN seen.fn, DOMAIN seen.prep, names>>)
WrongValid(cx, t, fs, sc, ps, base, seen) ==
    LET want == IF HasCond(t) THEN CAll({CPlain(base), CTree(cx, t, fs, ps)}) ELSE CYes
    IN Wrong("validity of " \o sc, SameCond(seen.valid, want) \/ (want = CPlain(base) /\ SameCond(seen.valid, CYes)), <<seen.valid, want>>)
RECURSIVE WrongInside(_, _, _, _, _)
WrongInside(cx, f, sc, ps, obs) ==
    LET at == sc \o "::" \o Cls(f.name) \o (IF Wrapped(cx, f, ps) THEN "Field" ELSE "")
        p2 == Max({ps, f.since})
        parts == Parts(f)
        seen == At(obs.conds, at, NoConds)
    IN (IF f.kind = "bundle"
        THEN WrongParts(cx, f.members, at, p2, seen) \cup WrongValid(cx, f.valid, f.members, at, p2, "Base::valid()", seen)
             \cup Wrong("reading of " \o at, seen.read = Steps(f.members, ""), <<seen.read, Steps(f.members, "")>>)
        ELSE IF f.kind = "bitfield" THEN WrongValid(cx, f.valid, f.members, at, p2, "Base::valid()", seen)
        ELSE {})
       \cup UNION { WrongInside(cx, parts[i], sc \o "::" \o MembersOf(f), p2, obs) : i \in DOMAIN parts }
WrongMessage(cx, m, at, obs) ==
    LET sc == at \o "::message::" \o Cls(m.name)
        seen == At(obs.conds, sc, NoConds)
        steps == Steps(m.fields, "")
        readc == IF HasCond(m.readc) THEN CTree(cx, m.readc, <<>>, 0) ELSE CYes
        read == IF steps = <<>> THEN (IF HasCond(m.readc) THEN <<"all">> ELSE <<>>)
                ELSE (IF cx.vd THEN <<"version">> ELSE <<>>) \o steps
                     \o (IF m.foi THEN <<IF HasCond(m.valid) THEN "valid" ELSE "base valid">> ELSE <<>>)
        start == IF HasCond(m.construct) THEN Given(cx, m.construct) ELSE <<>>
        given == [i \in DOMAIN seen.start |-> LET n == seen.start[i] IN
                    CNode(n.op, n.x, IF i \in DOMAIN start /\ start[i].d # W0 THEN W0 ELSE n.v, IF i \in DOMAIN start /\ start[i].d # W0 THEN n.d ELSE W0, {})]
    IN WrongParts(cx, m.fields, sc, m.since, seen)
       \cup WrongValid(cx, m.valid, m.fields, sc, m.since, "Base::doValid()", seen)
       \cup Wrong("reading of " \o sc, seen.read = read \/ (readc = CYes /\ read = <<"all">> /\ seen.read = <<>>), <<seen.read, read>>)
       \cup Wrong("condition to read " \o sc, SameCond(seen.readc, readc), <<seen.readc, readc>>)
       \cup Wrong("construction of " \o sc, given = start, <<seen.start, start>>)
       \cup UNION { WrongInside(cx, m.fields[i], sc \o "Fields", m.since, obs) : i \in DOMAIN m.fields }
\* P28
WrongConditions(st, u, o, obs) ==
    LET cx == Around(st, u.s, o)
        ns == NsOf(st, u)
        at == Scope(<<cx.main>> \o u.path)
    IN CASE u.u = "msg" -> WrongMessage(cx, ns.msgs[u.name], at, obs)
         [] u.u = "field" -> WrongInside(cx, ns.fields[u.name], at \o "::field", 0, obs)
         [] u.u = "iface" -> LET m == ns.ifaces[u.name] IN
                             UNION { WrongInside(cx, m.fields[i], at \o "::" \o Cls(m.name) \o "Fields", 0, obs) : i \in DOMAIN m.fields }
         [] OTHER -> {}
=============================================================================
