----------------------------- MODULE Elements -----------------------------
(* What message, interface, frame and layer definitions mean.               *)
EXTENDS Fields

---------------------------------------------------------------------------
(* members of messages and interfaces *)
ElemFields(r, n, c) ==
    IF ~r.ok THEN r
    ELSE LET fn == Kids(n, "fields")
             alone == KidsIn(n, FieldKinds)
             nodes == IF fn # <<>> THEN fn[1].c ELSE alone
             cc(a) == [c EXCEPT !.pk = a.f.kind, !.ps = a.f.since, !.pd = a.f.dep]
             add(a, k) == LET x == ParseField(k, cc(a)) IN
                          IF ~x.ok THEN Fail(a)
                          ELSE [a EXCEPT !.w = @ + x.w, !.f.fields = Append(@, x.f)]
         IN IF Len(fn) > 1 \/ (fn # <<>> /\ alone # <<>>) THEN Fail(r)
            ELSE IF alone # <<>> /\ Len(n.c) # Len(alone) THEN Fail(r)
            ELSE IF \E i \in DOMAIN nodes : nodes[i].t \notin FieldKinds THEN Fail(r)
            ELSE LET r1 == Over(r, nodes, add) IN IF r1.ok /\ NamesUnique(r1.f.fields) THEN r1 ELSE Fail(r1)
\* fields of another definition of the same kind, or of a bundle
CopyFields(r, n, c, Find(_, _)) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "copyFieldsFrom") THEN Fail(r)
    ELSE IF ~Has(n, "copyFieldsFrom") THEN Put(r, "src", <<>>)
    ELSE IF r.f.fields # <<>> THEN Fail(r)
    ELSE LET v == P(n, "copyFieldsFrom")
             m == Find(c, v)
             b == FindField(c, v)
         IN IF ~IsNone(m) THEN Put(Put(r, "fields", m.fields), "src", <<m.aliases>>)
            ELSE IF ~Dsl(c, 4) \/ IsNone(b) THEN Fail(r)
            ELSE IF b.kind # "bundle" THEN Fail(r)
            ELSE Put(Put(r, "fields", b.members), "src", <<b.aliases>>)
\* their aliases, as far as what they denote was taken over
CopyAliases(r, n, c) ==
    IF ~r.ok THEN r
    ELSE LET p == "copyFieldsAliases"
             asked == Has(n, p)
             done(rr) == Without(IF rr.ok THEN Put(rr, "aliases", KeptAliases(rr.f.aliases, rr.f.fields)) ELSE rr, "src")
         IN IF ~One(n, p) \/ (asked /\ ~Dsl(c, 3)) THEN Fail(r)
            ELSE IF ~Dsl(c, 3) THEN done(r)
            ELSE IF asked /\ ~IsBool(P(n, p)) THEN Fail(r)
            ELSE IF asked /\ ~BoolOf(P(n, p)) THEN done(r)
            ELSE IF r.f.src = <<>> THEN done(WarnIf(r, asked))
            ELSE done([r EXCEPT !.f.aliases = @ \o r.f.src[1]])
ElemReuse(r, n, c, Find(_, _), fresh) ==
    IF ~One(n, "reuse") THEN Fail(r)
    ELSE IF ~Has(n, "reuse") THEN r
    ELSE IF ~Dsl(c, 7) THEN Warn(r, 1)
    ELSE LET g == Find(c, P(n, "reuse")) IN
         IF IsNone(g) THEN Fail(r)
         ELSE LET r1 == [r EXCEPT !.f = (fresh @@ g)]
                  r2 == SetBool(Put(r1, "ra", TRUE), n, c, "reuseAliases", "ra")
                  r3 == SetBool(Put(r2, "rc", FALSE), n, c, "reuseCode", "rc")
                  r4 == IF r3.ok /\ ~r3.f.ra THEN Put(r3, "aliases", <<>>) ELSE r3
                  r5 == IF r4.ok THEN Put(r4, "ccf", IF r4.f.rc THEN P(n, "reuse").s ELSE "") ELSE r4
              IN Without(Without(r5, "ra"), "rc")
ElemName(r, n) ==
    LET r1 == SetStr(r, n, "name", "name") IN
    IF ~r1.ok THEN r1 ELSE Need(r1, r1.f.name # "" /\ (Has(n, "name") => P(n, "name").nm))

---------------------------------------------------------------------------
(* <message> *)
MsgProps == {"name", "id", "displayName", "description", "sinceVersion", "deprecated", "removed",
    "copyFieldsFrom", "copyFieldsAliases", "order", "platforms", "customizable", "sender",
    "validateMinLength", "readOverride", "writeOverride", "refreshOverride", "lengthOverride",
    "validOverride", "nameOverride", "copyCodeFrom", "constructAsReadCond", "constructAsValidCond",
    "failOnInvalid", "reuse", "reuseCode", "reuseAliases", "copyConstructFrom", "copyReadCondFrom",
    "copyValidCondFrom"}
MsgPoss == {"construct", "readCond", "validCond"}
BlankMsg == [kind |-> "msg", name |-> "", disp |-> "", desc |-> "", id |-> W0, order |-> 0, since |-> 0,
    dep |-> NoDep, rem |-> FALSE, custom |-> FALSE, foi |-> FALSE, sender |-> 0, ovr |-> <<0, 0, 0, 0, 0, 0>>,
    ccf |-> "", platforms |-> EmptyMap, fields |-> <<>>, aliases |-> <<>>, construct |-> NoCond,
    readc |-> NoCond, valid |-> NoCond, xattr |-> EmptyMap, xelem |-> 0, vml |-> -1, xref |-> ""]
Senders == "both" :> 0 @@ "client" :> 1 @@ "server" :> 2
\* the number of a message: an enumerator or a literal
MsgId(r, n, c) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "id") \/ ~Has(n, "id") THEN Fail(r)
    ELSE LET v == P(n, "id")
             e == IF v.rf THEN EnumRef(c, v) ELSE Bad
         IN IF e.ok THEN Put(r, "id", WWrapU(e.v))
            ELSE IF v.ul.ok THEN Put(r, "id", v.ul.v) ELSE Fail(r)
MsgVersions(r, n, c) ==
    IF ~r.ok THEN r
    ELSE IF \E p \in {"sinceVersion", "deprecated", "removed"} : ~One(n, p) THEN Fail(r)
    ELSE LET vs == Vers(c, n, 0, NoDep)
             rem == IF Has(n, "removed") THEN BoolOf(P(n, "removed")) ELSE FALSE
         IN IF ~vs.ok \/ (Has(n, "removed") /\ ~IsBool(P(n, "removed"))) THEN Fail(r)
            ELSE WarnIf(Put(Put(Put(r, "since", vs.since), "dep", vs.dep), "rem", rem /\ vs.dep # NoDep),
                        rem /\ vs.dep = NoDep)
\* +a,b are the platforms of the message, -a,b those it is not for
MsgPlatforms(r, n, c) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "platforms") THEN Fail(r)
    ELSE IF ~Has(n, "platforms") THEN r
    ELSE LET pl == P(n, "platforms").pl
             all == DOMAIN c.st.schemas[c.st.cur].platforms
             named == Rng(pl.l)
             left == IF pl.op = "+" THEN named ELSE all \ named
         IN IF ~pl.ok THEN Fail(r)
            ELSE IF ~(named \subseteq all) \/ left = {} THEN Fail(r)
            ELSE Put(r, "platforms", [p \in left |-> 1])
MsgSender(r, n) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, "sender") THEN Fail(r)
    ELSE IF ~Has(n, "sender") THEN r
    ELSE IF P(n, "sender").lo \notin DOMAIN Senders THEN Fail(r)
    ELSE Put(r, "sender", Senders[P(n, "sender").lo])
MsgFoi(r, n, c) ==
    LET r1 == SetBool(r, n, c, "failOnInvalid", "foi") IN
    IF ~r1.ok \/ Dsl(c, 6) \/ ~r1.f.foi THEN r1 ELSE Warn(Put(r1, "foi", FALSE), 1)
MsgReplace(r, n, c) ==
    ReplaceIn(r, n, c, FieldKinds, "fields")
MsgMinLen(f) == SumLen(SelectSeq(f.fields, LAMBDA m : m.since <= f.since), "minl")
\* a condition that tells how to construct: bits and equalities, all of them
RECURSIVE Constructs(_)
Constructs(t) ==
    IF t.t = "expr" THEN t.cd.op \in {"", "!", "="}
    ELSE t.t = "and" /\ \A i \in DOMAIN t.c : Constructs(t.c[i])
MsgCopyCond(r, n, c, prop, key, Source(_), sibs) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, prop) THEN Fail(r)
    ELSE IF ~Has(n, prop) THEN r
    ELSE IF ~PropOk(c, prop) THEN Warn(r, 1)
    ELSE LET t == Source(P(n, prop)) IN
         IF ~HasCond(t) THEN Fail(r)
         ELSE IF ~CondOk(c, t, sibs) THEN Fail(r)
         ELSE Put(r, key, t)
MsgAsCond(r, n, c, prop, key) ==
    IF ~r.ok THEN r
    ELSE IF ~One(n, prop) THEN Fail(r)
    ELSE IF ~Has(n, prop) THEN r
    ELSE IF ~PropOk(c, prop) THEN Warn(r, 1)
    ELSE IF ~IsBool(P(n, prop)) THEN Fail(r)
    ELSE IF ~BoolOf(P(n, prop)) THEN r
    ELSE IF ~HasCond(r.f.construct) THEN Fail(r)
    ELSE Put(r, key, r.f.construct)
MsgConds(r, n, c) ==
    IF ~r.ok THEN r
    ELSE LET of(v, key) == LET m == FindMsg(c, v) IN IF IsNone(m) THEN NoCond ELSE m[key]
             valid(v) == LET m == FindMsg(c, v)
                             b == FindField(c, v)
                         IN IF ~IsNone(m) THEN m.valid
                            ELSE IF IsNone(b) THEN NoCond
                            ELSE IF b.kind = "bundle" THEN b.valid ELSE NoCond
             fs == r.f.fields
             r1 == MsgCopyCond(r, n, c, "copyConstructFrom", "construct", LAMBDA v : of(v, "construct"), <<>>)
             r2 == MsgCopyCond(r1, n, c, "copyReadCondFrom", "readc", LAMBDA v : of(v, "readc"), <<>>)
             r3 == MsgCopyCond(r2, n, c, "copyValidCondFrom", "valid", valid, fs)
             r4 == SetCond(r3, n, c, "construct", "construct", 6, <<>>, TRUE)
             r5 == IF r4.ok /\ HasCond(r4.f.construct) THEN Need(r4, Constructs(r4.f.construct)) ELSE r4
             r6 == SetCond(r5, n, c, "readCond", "readc", 6, <<>>, TRUE)
             r7 == SetCond(r6, n, c, "validCond", "valid", 6, fs, TRUE)
             r8 == MsgAsCond(MsgAsCond(r7, n, c, "constructAsReadCond", "readc"), n, c, "constructAsValidCond", "valid")
         IN IF r8.ok /\ HasCond(r8.f.valid) THEN Need(r8, CondOk(c, r8.f.valid, fs)) ELSE r8
ParseMessage(n, c) ==
    IF ~PropKids(n, MsgProps) \/ ~PossKids(n, MsgPoss) THEN BadRes
    ELSE
    LET props == MsgProps \cup MsgPoss
        kids == props \cup FieldKinds \cup {"fields", "alias", "replace"}
        fresh == [xattr |-> EmptyMap, xelem |-> 0, xref |-> ""]
        r1 == ElemName(ElemReuse(Res(BlankMsg), n, c, FindMsg, fresh), n)
        r2 == MsgId(SetText(SetText(r1, n, c, "displayName", "disp"), n, c, "description", "desc"), n, c)
        r3 == MsgPlatforms(MsgVersions(SetU(r2, n, "order", "order"), n, c), n, c)
        r4 == MsgSender(SetBool(r3, n, c, "customizable", "custom"), n)
        r5 == CopyFields(MsgFoi(SetVml(r4, n, c, 4), n, c), n, c, FindMsg)
        \* fields which were removed before are not part of it
        r6 == IF ~r5.ok THEN r5 ELSE Put(r5, "fields", Present(r5.f.fields, r5.f.since))
        cc == [c EXCEPT !.pk = "msg"]
        r6f == ElemFields(MsgReplace(r6, n, cc), n, cc)
        r7 == CopyAliases(IF r6f.ok THEN Need(r6f, InOrder(c, r6f.f.fields)) ELSE r6f, n, c)
        r8 == Aliases(r7, n, c, "fields")
        r9 == FoldLeft(LAMBDA a, i : SetOvr(a, n, c, <<"readOverride", "writeOverride", "refreshOverride",
                            "lengthOverride", "validOverride", "nameOverride">>[i], i), r8, <<1, 2, 3, 4, 5, 6>>)
        ra == MsgConds(CopyCode(r9, n, c, FindMsg), n, c)
    IN IF ~ra.ok THEN ra
       ELSE IF ra.f.vml >= 0 /\ MsgMinLen(ra.f) # WN(ra.f.vml) THEN Fail(ra)
       ELSE Warn([ra EXCEPT !.f = "minl" :> MsgMinLen(ra.f) @@ "maxl" :> SumLen(ra.f.fields, "maxl")
                                  @@ "xattr" :> XAttrs(n, props) @@ "xelem" :> XElems(n, kids) @@ @],
                 XWarn(c, n, props, kids))

---------------------------------------------------------------------------
(* <interface> *)
IfaceProps == {"name", "description", "copyFieldsFrom", "copyFieldsAliases", "reuse", "reuseCode", "reuseAliases"}
BlankIface == [kind |-> "iface", name |-> "", desc |-> "", ccf |-> "", fields |-> <<>>, aliases |-> <<>>,
    xattr |-> EmptyMap, xelem |-> 0, xref |-> "", since |-> 0, dep |-> NoDep]
ParseInterface(n, c) ==
    IF ~PropKids(n, IfaceProps) THEN BadRes
    ELSE
    LET kids == IfaceProps \cup FieldKinds \cup {"fields", "alias"}
        fresh == [xattr |-> EmptyMap, xelem |-> 0, xref |-> ""]
        r1 == ElemName(ElemReuse(Res(BlankIface), n, c, FindIface, fresh), n)
        r2 == CopyFields(SetStr(r1, n, "description", "desc"), n, c, FindIface)
        r2f == ElemFields(r2, n, [c EXCEPT !.pk = "iface"])
        r3 == CopyAliases(IF r2f.ok THEN Need(r2f, InOrder(c, r2f.f.fields)) ELSE r2f, n, c)
        r4 == Aliases(r3, n, c, "fields")
    IN IF ~r4.ok THEN r4
       ELSE Warn([r4 EXCEPT !.f = "xattr" :> XAttrs(n, IfaceProps) @@ "xelem" :> XElems(n, kids) @@ @],
                 XWarn(c, n, IfaceProps, kids))

---------------------------------------------------------------------------
(* <frame> and its layers *)
LayerKinds == {"custom", "sync", "size", "id", "value", "payload", "checksum"}
LayerCommon == {"name", "description", "displayName"}
LayerProps ==
    "custom" :> {"idReplacement", "semanticLayerType", "checksumFrom", "checksumUntil"} @@
    "sync" :> {"seekField", "from", "verifyBeforeRead"} @@
    "value" :> {"interfaces", "interfaceFieldName", "pseudo"} @@
    "checksum" :> {"alg", "algName", "from", "until", "verifyBeforeRead"} @@
    [k \in {"size", "id", "payload"} |-> {}]
LayerPoss(k) == {"field"} \cup (IF k = "sync" THEN {"escField"} ELSE {})
\* displayName exists since DSL version 7
SetDisp(r, n, c) ==
    LET r1 == SetStr(r, n, "displayName", "disp") IN
    IF ~r1.ok \/ r1.f.disp = "" \/ Dsl(c, 7) THEN r1 ELSE Warn(Put(r1, "disp", ""), 1)
CustomLayer(r, n, c) ==
    LET r0 == SetBool(Put(r, "idr", FALSE), n, c, "idReplacement", "idr")
        r1 == IF ~r0.ok THEN r0 ELSE Without(Put(r0, "sem", IF r0.f.idr THEN "id" ELSE "custom"), "idr")
        r2 == IF ~r1.ok THEN r1
              ELSE IF ~One(n, "semanticLayerType") THEN Fail(r1)
              ELSE IF ~Has(n, "semanticLayerType") THEN r1
              ELSE IF ~PropOk(c, "semanticLayerType") THEN Warn(r1, 1)
              ELSE IF ~HasV(n, "semanticLayerType") THEN r1
              ELSE IF r1.f.sem # "custom" \/ P(n, "semanticLayerType").s \notin LayerKinds THEN Fail(r1)
              ELSE Put(r1, "sem", P(n, "semanticLayerType").s)
        lim(rr, prop, key) ==
            IF ~rr.ok THEN rr
            ELSE IF ~One(n, prop) THEN Fail(rr)
            ELSE IF ~Has(n, prop) THEN rr
            ELSE IF ~PropOk(c, prop) \/ rr.f.sem # "checksum" THEN Warn(rr, 1)
            ELSE Put(rr, key, P(n, prop).s)
    IN lim(lim(Put(Put(r2, "from", ""), "until", ""), "checksumFrom", "from"), "checksumUntil", "until")
SyncLayer(r, n, c) ==
    LET bool(rr, prop, key, okv) ==
            IF ~rr.ok THEN rr
            ELSE IF ~One(n, prop) THEN Fail(rr)
            ELSE IF ~Has(n, prop) THEN rr
            ELSE IF ~okv THEN Warn(rr, 1)
            ELSE IF ~IsBool(P(n, prop)) THEN Fail(rr)
            ELSE Put(rr, key, BoolOf(P(n, prop)))
        r1 == bool(Put(Put(r, "seek", FALSE), "vbr", FALSE), "seekField", "seek", Dsl(c, 8))
        ks == Kids(n, "escField")
        r2 == FieldFromRef(r1, n, c, "escField", "escf")
        r3 == IF ~r2.ok \/ ks = <<>> THEN r2
              ELSE IF Len(ks) > 1 \/ "escf" \in DOMAIN r2.f \/ Len(ks[1].c) # 1 THEN Fail(r2)
              ELSE IF ks[1].c[1].t \notin FieldKinds THEN Fail(r2)
              ELSE LET x == ParseField(ks[1].c[1], [c EXCEPT !.pk = "layer"]) IN
                   IF ~x.ok THEN Fail(r2) ELSE Warn(Put(r2, "escf", x.f), x.w)
        r4 == IF ~r3.ok \/ "escf" \notin DOMAIN r3.f THEN r3
              ELSE Need(r3, r3.f.seek)          \* seekField and escField exist since the same version
        r5 == IF r4.ok /\ Has(n, "verifyBeforeRead") THEN Need(r4, ~r4.f.seek) ELSE r4
        r6 == bool(r5, "verifyBeforeRead", "vbr", Dsl(c, 8))
        r7 == SetStr(Put(r6, "from", ""), n, "from", "from")
    IN IF ~r7.ok \/ r7.f.from = "" THEN r7
       ELSE IF ~r7.f.seek /\ ~r7.f.vbr THEN Fail(r7)
       ELSE IF ~Dsl(c, 8) THEN Warn(Put(r7, "from", ""), 1)
       ELSE r7
FieldIdx(i, name) == LET xs == { x \in DOMAIN i.fields : i.fields[x].name = name }
                     IN IF xs = {} THEN 0 ELSE CHOOSE x \in xs : TRUE
ValueLayer(r, n, c) ==
    IF ~One(n, "interfaces") \/ ~One(n, "interfaceFieldName") \/ ~One(n, "pseudo") THEN Fail(r)
    ELSE LET given == Has(n, "interfaces")
             il == IF given THEN P(n, "interfaces").il ELSE <<>>
             found == [x \in DOMAIN il |-> FindIface(c, il[x])]
             nss == c.st.schemas[c.st.cur].nss
             \* all interfaces outside of nested namespaces
             every == UNION { { nss[x].ifaces[y] : y \in DOMAIN nss[x].ifaces } : x \in DOMAIN nss }
             used == IF given THEN Rng(found) ELSE every
         IN IF given /\ (\E x \in DOMAIN il : il[x].s = "" \/ IsNone(found[x])) THEN Fail(r)
            ELSE IF used = {} \/ ~HasV(n, "interfaceFieldName") THEN Fail(r)
            ELSE LET fname == P(n, "interfaceFieldName").s
                     idx == { FieldIdx(i, fname) : i \in used }
                     times(i) == IF given THEN Len(SelectSeq(found, LAMBDA x : x = i)) ELSE 1
                 IN IF 0 \in idx \/ Cardinality(idx) # 1 THEN Fail(r)
                    ELSE SetBool(Put(Put(Put(Put(r, "ifaces", [x \in { i.xref : i \in used } |->
                                    times(CHOOSE i \in used : i.xref = x)]), "fname", fname),
                                    "fidx", WN((CHOOSE x \in idx : TRUE) - 1)), "pseudo", FALSE),
                                 n, c, "pseudo", "pseudo")
Algs == "custom" :> 0 @@ "sum" :> 1 @@ "crc-ccitt" :> 2 @@ "crc_ccitt" :> 2 @@ "crc-16" :> 3 @@ "crc_16" :> 3
        @@ "crc-32" :> 4 @@ "crc_32" :> 4 @@ "xor" :> 5
ChecksumLayer(r, n, c) ==
    IF ~One(n, "alg") \/ ~Has(n, "alg") THEN Fail(r)
    ELSE IF P(n, "alg").lo \notin DOMAIN Algs THEN Fail(r)
    ELSE LET a == Algs[P(n, "alg").lo]
             r1 == Put(r, "alg", a)
             r2 == IF a # Algs["custom"] THEN Put(r1, "algn", "")
                   ELSE IF ~One(n, "algName") \/ ~Has(n, "algName") THEN Fail(r1)
                   ELSE IF ~P(n, "algName").nm THEN Fail(r1) ELSE Put(r1, "algn", P(n, "algName").s)
             r3 == SetStr(SetStr(Put(Put(r2, "from", ""), "until", ""), n, "from", "from"), n, "until", "until")
         IN SetBool(Put(r3, "vbr", FALSE), n, c, "verifyBeforeRead", "vbr")
\* a field given as a child, where none is given by reference
LayerField(r, n, c) ==
    IF ~r.ok THEN r
    ELSE LET ks == Kids(n, "field")
             alone == KidsIn(n, FieldKinds)
             use(k) == IF k.t \notin FieldKinds THEN Fail(r)
                       ELSE LET x == ParseField(k, c) IN IF x.ok THEN Warn(Put(r, "field", x.f), x.w) ELSE Fail(r)
         IN IF Len(ks) > 1 \/ (ks # <<>> /\ alone # <<>>) THEN Fail(r)
            ELSE IF alone # <<>>
            THEN IF Len(alone) > 1 \/ Len(n.c) # 1 \/ Has(n, "field") THEN Fail(r) ELSE use(alone[1])
            ELSE IF ks = <<>> THEN r
            ELSE IF Len(ks[1].c) > 1 THEN Fail(r)
            ELSE IF Has(n, "field") THEN r
            ELSE IF ks[1].c = <<>> THEN Fail(r)
            ELSE use(ks[1].c[1])
ParseLayer(n, c0) ==
    LET c == [c0 EXCEPT !.pk = "layer", !.ps = 0, !.pd = NoDep]
        props == LayerCommon \cup LayerProps[n.t] \cup LayerPoss(n.t)
        kids == props \cup FieldKinds
    IN
    IF ~PropKids(n, LayerCommon \cup LayerProps[n.t]) \/ ~PossKids(n, LayerPoss(n.t)) THEN BadRes
    ELSE
    LET blank == [kind |-> n.t, name |-> "", disp |-> "", desc |-> "", since |-> 0, dep |-> NoDep]
        r1 == SetStr(SetDisp(ElemName(Res(blank), n), n, c), n, "description", "desc")
        lc == [c EXCEPT !.pk = "layer"]
        \* a field given as a child belongs to the layer
        r2 == LayerField(FieldFromRef(r1, n, c, "field", "field"), n, lc)
        r3 == IF ~r2.ok THEN r2 ELSE Need(r2, ("field" \in DOMAIN r2.f) = (n.t # "payload"))
        r4 == IF ~r3.ok THEN r3
              ELSE CASE n.t = "custom" -> CustomLayer(r3, n, c)
                     [] n.t = "sync" -> SyncLayer(r3, n, c)
                     [] n.t = "value" -> ValueLayer(r3, n, c)
                     [] n.t = "checksum" -> ChecksumLayer(r3, n, c)
                     [] OTHER -> r3
    IN IF ~r4.ok THEN r4
       ELSE Warn([r4 EXCEPT !.f = "xattr" :> XAttrs(n, props) @@ "xelem" :> XElems(n, kids) @@ @],
                 XWarn(c, n, props, kids))
\* which layers may stand where; position 0 stands for "no such layer"
LayerAt(ls, name) == LET xs == { i \in DOMAIN ls : ls[i].name = name }
                     IN IF xs = {} THEN 0 ELSE CHOOSE i \in xs : \A j \in xs : i <= j
KindAt(ls, k) == LET xs == { i \in DOMAIN ls : ls[i].kind = k }
                 IN IF xs = {} THEN 0 ELSE CHOOSE i \in xs : \A j \in xs : i <= j
\* what is computed over a range of layers covers what is computed before it
SuffixOk(ls, i, fromIdx) ==
    \A m \in DOMAIN ls :
        (KindAt(ls, "payload") < m /\ m < i /\ ls[m].kind \in {"sync", "checksum"} /\ ls[m].from # "")
        => LayerAt(ls, ls[m].from) >= fromIdx
RangeOk(ls, i) ==
    LET l == ls[i]
        u == LayerAt(ls, l.until)
        f == LayerAt(ls, l.from)
    IN /\ (l.from # "") # (l.until # "")
       /\ l.from # "" => f # 0 /\ f < i
       /\ l.until # "" => u > i
LayerOk(ls, i, c) ==
    LET l == ls[i]
        pay == KindAt(ls, "payload")
        single == \A j \in DOMAIN ls : j # i => ls[j].kind # l.kind
    IN CASE l.kind \in {"id", "size"} -> single /\ i < pay
         [] l.kind = "payload" -> single
         [] l.kind = "value" -> i < pay
         [] l.kind = "checksum" -> RangeOk(ls, i) /\ (l.from # "" => SuffixOk(ls, i, LayerAt(ls, l.from)))
         [] l.kind = "custom" -> l.sem = "checksum" => RangeOk(ls, i)
         [] l.kind = "sync" ->
                ~Dsl(c, 8)
                \/ (IF i < pay THEN l.from = ""
                    ELSE /\ l.seek => l.from # ""
                         /\ l.from # "" => LET f == LayerAt(ls, l.from) IN f # 0 /\ f <= pay /\ SuffixOk(ls, i, f))
FrameProps == {"name", "description", "displayName"}
ParseFrame(n, c) ==
    IF ~PropKids(n, FrameProps) THEN BadRes
    ELSE
    LET blank == [kind |-> "frame", name |-> "", disp |-> "", desc |-> "", xref |-> "", layers |-> <<>>,
                  since |-> 0, dep |-> NoDep]
        kids == FrameProps \cup LayerKinds \cup {"layers"}
        r1 == SetStr(SetDisp(ElemName(Res(blank), n), n, c), n, "description", "desc")
        ln == Kids(n, "layers")
        alone == KidsIn(n, LayerKinds)
        nodes == IF ln # <<>> THEN ln[1].c ELSE alone
        add(a, k) == LET x == ParseLayer(k, c) IN
                     IF ~x.ok THEN Fail(a)
                     ELSE IF \E i \in DOMAIN a.f.layers : SameAccessor(a.f.layers[i].name, x.f.name) THEN Fail(a)
                     ELSE [a EXCEPT !.w = @ + x.w, !.f.layers = Append(@, x.f)]
        r2 == IF ~r1.ok THEN r1
              ELSE IF Len(ln) > 1 \/ (ln # <<>> /\ alone # <<>>) \/ (ln = <<>> /\ alone = <<>>) THEN Fail(r1)
              ELSE IF alone # <<>> /\ Len(n.c) # Len(alone) THEN Fail(r1)
              ELSE IF \E i \in DOMAIN nodes : nodes[i].t \notin LayerKinds THEN Fail(r1)
              ELSE Over(r1, nodes, add)
        r3 == IF ~r2.ok THEN r2
              ELSE Need(r2, /\ KindAt(r2.f.layers, "payload") # 0
                            /\ \A i \in DOMAIN r2.f.layers : LayerOk(r2.f.layers, i, c))
    IN IF ~r3.ok THEN r3
       ELSE Warn(Put(Put(r3, "xattr", XAttrs(n, FrameProps)), "xelem", XElems(n, kids)), XWarn(c, n, FrameProps, kids))
===========================================================================
