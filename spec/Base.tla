------------------------------- MODULE Base -------------------------------
(* Documents, contexts and property access.                                 *)
(*                                                                          *)
(* A document node is a record                                              *)
(*   t  tag            p  property name -> sequence of values (the XML      *)
(*   an attribute names   attribute first, then valued child elements)      *)
(*   c  child elements vs 0 no value, 1 one value, 2 contradicting values   *)
(*   v  the node's own value (when vs = 1)                                  *)
(* A value is a record of lexical views of one string, see tools/lex.py.    *)
(*                                                                          *)
(* A context c carries what the enclosing elements and the protocol state   *)
(* contribute to the meaning of an element:                                 *)
(*   dsl, ver, endian  of the schema being read      st  the protocol state *)
(*   pk  kind of the parent ("ns", "msg", "iface", "layer", field kinds)    *)
(*   ps, pd  since / deprecated of the parent        sib  earlier siblings  *)
(*   pfx expected prefixes of extra attributes/elements  xr  reference      *)
(*   prefix of the enclosing namespace                                      *)
EXTENDS Wide, FiniteSets, SequencesExt, TLC

NoDep == 2000000000     \* "not deprecated"
NoRec == [none |-> TRUE]
IsNone(x) == x = NoRec
EmptyMap == [x \in {} |-> 0]

Rng(s) == { s[i] : i \in DOMAIN s }
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
SumOver(s, Op(_)) == FoldLeft(LAMBDA a, e : a + Op(e), 0, s)
B2N(b) == IF b THEN 1 ELSE 0

---------------------------------------------------------------------------
(* property access *)
Has(n, k) == k \in DOMAIN n.p
P(n, k) == n.p[k][1]
One(n, k) == k \notin DOMAIN n.p \/ Len(n.p[k]) = 1
HasV(n, k) == Has(n, k) /\ P(n, k).s # ""        \* present and not empty
Attr(n, k) == k \in Rng(n.an)
Kids(n, tag) == SelectSeq(n.c, LAMBDA x : x.t = tag)
KidsIn(n, tags) == SelectSeq(n.c, LAMBDA x : x.t \in tags)
\* every child element that states a property has exactly one value
PropKids(n, names) == \A i \in DOMAIN n.c : n.c[i].t \in names => n.c[i].vs = 1
\* properties that may alternatively be given as a structured child
PossKids(n, names) == \A i \in DOMAIN n.c : n.c[i].t \in names => n.c[i].vs # 2

IsBool(v) == v.lo \in {"true", "1", "false", "0"}
BoolOf(v) == v.lo \in {"true", "1"}

---------------------------------------------------------------------------
(* DSL version gating; DSL version 0 means "everything" *)
Dsl(c, k) == c.dsl = 0 \/ c.dsl >= k
PropSince ==
    "validateMinLength" :> 4 @@ "defaultValidValue" :> 4 @@ "availableLengthLimit" :> 4 @@
    "copyCodeFrom" :> 5 @@ "semanticLayerType" :> 5 @@ "checksumFrom" :> 5 @@ "checksumUntil" :> 5 @@
    "termSuffix" :> 5 @@ "missingOnReadFail" :> 5 @@ "missingOnInvalid" :> 5 @@ "reuseCode" :> 5 @@
    "construct" :> 6 @@ "readCond" :> 6 @@ "validCond" :> 6 @@ "constructAsReadCond" :> 6 @@
    "constructAsValidCond" :> 6 @@ "fixedValue" :> 7 @@ "copyConstructFrom" :> 7 @@
    "copyReadCondFrom" :> 7 @@ "copyValidCondFrom" :> 7 @@ "seekField" :> 8 @@ "escField" :> 8
PropOk(c, k) == k \notin DOMAIN PropSince \/ Dsl(c, PropSince[k])
DeprecatedProps == {"displayReadOnly", "displayHidden", "displaySpecials", "displayExtModeCtrl",
                    "displayIdxReadOnlyHidden"}
PropDeprecated(c, k) == k \in DeprecatedProps /\ c.dsl >= 7     \* never for DSL version 0

---------------------------------------------------------------------------
(* unexpected attributes and elements *)
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Expected(c, s) == \E i \in DOMAIN c.pfx : StartsWith(s, c.pfx[i])
XWarn(c, n, attrs, kids) ==
    SumOver(n.an, LAMBDA a : B2N(a \notin attrs /\ ~Expected(c, a)))
    + SumOver(n.c, LAMBDA k : B2N(k.t \notin kids /\ ~Expected(c, k.t)))
XAttrs(n, attrs) == LET xs == { a \in Rng(n.an) : a \notin attrs }
                    IN [a \in xs |-> <<P(n, a).s>>]
XMerge(old, new) ==
    [a \in DOMAIN old \cup DOMAIN new |->
        (IF a \in DOMAIN old THEN old[a] ELSE <<>>) \o (IF a \in DOMAIN new THEN new[a] ELSE <<>>)]
XElems(n, kids) == SumOver(n.c, LAMBDA k : B2N(k.t \notin kids))

---------------------------------------------------------------------------
(* versions: what an element may state inside the window of its parent *)
VersOk(c, since, dep, ps, pd) ==
    /\ since <= c.ver
    /\ ps <= since
    /\ since < pd
    /\ dep <= pd
    /\ since < dep
    /\ dep < NoDep => dep <= c.ver
\* since/deprecated stated by node n, inherited from the parent otherwise
Vers(c, n, ps, pd) ==
    LET okS == Has(n, "sinceVersion") => P(n, "sinceVersion").u >= 0
        okD == Has(n, "deprecated") => P(n, "deprecated").u >= 0
        s == IF Has(n, "sinceVersion") THEN P(n, "sinceVersion").u ELSE ps
        d == IF Has(n, "deprecated") THEN P(n, "deprecated").u ELSE pd
    IN IF okS /\ okD /\ VersOk(c, s, d, ps, pd) THEN [ok |-> TRUE, since |-> s, dep |-> d]
       ELSE [ok |-> FALSE, since |-> 0, dep |-> NoDep]

---------------------------------------------------------------------------
(* names *)
\* first letters are compared regardless of case: they become accessor names
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
LowerOf == [u \in Rng(Upper) |-> Lower[CHOOSE i \in DOMAIN Upper : Upper[i] = u]]
First(s) == LET h == SubSeq(s, 1, 1) IN IF h \in DOMAIN LowerOf THEN LowerOf[h] ELSE h
SameAccessor(a, b) == First(a) = First(b) /\ SubSeq(a, 2, Len(a)) = SubSeq(b, 2, Len(b))
\* the names in a map which are the same as nm
Same(map, nm) == { x \in DOMAIN map : SameAccessor(x, nm) }
Entry(map, nm) == map[CHOOSE x \in Same(map, nm) : TRUE]

---------------------------------------------------------------------------
(* element lookup by name: the path names namespaces, the last part the element *)
SchemaIdx(st, name) == LET is == { i \in DOMAIN st.schemas : st.schemas[i].name = name }
                       IN IF is = {} THEN 0 ELSE CHOOSE i \in is : TRUE
RefSchema(c, v) == IF v.rs = "" THEN c.st.cur ELSE SchemaIdx(c.st, v.rs)
RECURSIVE NsAt(_, _)
NsAt(nss, path) ==
    IF path[1] \notin DOMAIN nss THEN NoRec
    ELSE IF Len(path) = 1 THEN nss[path[1]]
    ELSE NsAt(nss[path[1]].nss, Tail(path))
\* kind is "fields", "msgs" or "ifaces"; only this or an earlier schema may be referenced
FindElem(c, v, kind) ==
    IF ~v.rf \/ v.rp = <<>> THEN NoRec
    ELSE LET si == RefSchema(c, v) IN
         IF si = 0 \/ si > c.st.cur THEN NoRec
         ELSE LET nss == c.st.schemas[si].nss
                  ns == NsAt(nss, IF Len(v.rp) = 1 THEN <<"">> ELSE Front(v.rp))
              IN IF IsNone(ns) THEN NoRec
                 ELSE IF Same(ns[kind], Last(v.rp)) = {} THEN NoRec
                 ELSE Entry(ns[kind], Last(v.rp))
FindField(c, v) == FindElem(c, v, "fields")
FindMsg(c, v) == FindElem(c, v, "msgs")
FindIface(c, v) == FindElem(c, v, "ifaces")

\* a value reference: a namespace is meant where a namespace and a field share a name
RECURSIVE ValueIn(_, _)
ValueIn(ns, path) ==
    IF Len(path) = 1
    THEN IF Same(ns.fields, path[1]) # {} THEN [f |-> Entry(ns.fields, path[1]), rest |-> <<>>] ELSE NoRec
    ELSE IF path[1] \in DOMAIN ns.nss THEN ValueIn(ns.nss[path[1]], Tail(path))
    ELSE IF Same(ns.fields, path[1]) # {} THEN [f |-> Entry(ns.fields, path[1]), rest |-> Tail(path)]
    ELSE NoRec
ValueField(c, v) ==
    IF ~v.rf \/ v.rp = <<>> THEN NoRec
    ELSE LET si == RefSchema(c, v) IN
         IF si = 0 THEN NoRec
         ELSE LET nss == c.st.schemas[si].nss
              IN IF Len(v.rp) > 1 /\ v.rp[1] \in DOMAIN nss THEN ValueIn(nss[v.rp[1]], Tail(v.rp))
                 ELSE IF "" \in DOMAIN nss THEN ValueIn(nss[""], v.rp)
                 ELSE NoRec
===========================================================================
