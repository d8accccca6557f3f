------------------------------ MODULE Project ------------------------------
(* The observable face of the model: what the public API of the parser says *)
(* about it. An accepted protocol is observed correctly when the projection *)
(* of the final state equals what the real parser reported.                 *)
EXTENDS Protocol

Only(r, keys) == [k \in keys \cap DOMAIN r |-> r[k]]
Drop(r, keys) == [k \in DOMAIN r \ keys |-> r[k]]

ProjOperand(o) ==
    IF o.s = "" THEN [type |-> 0, mode |-> 0, acc |-> ""]
    ELSE IF o.pre = "" THEN [type |-> 1, mode |-> 0, acc |-> o.s]
    ELSE LET t == SubSeq(o.s, 2, Len(o.s))
             h == IF Len(t) > 0 THEN SubSeq(t, 1, 1) ELSE ""
             mode == IF Len(t) < 2 THEN 0 ELSE IF h = "#" THEN 1 ELSE IF h = "?" THEN 2 ELSE 0
         IN [type |-> IF o.pre = "$" THEN 2 ELSE 3, mode |-> mode,
             acc |-> IF mode = 0 THEN t ELSE SubSeq(t, 2, Len(t))]
RECURSIVE ProjCond(_)
ProjCond(t) ==
    IF ~HasCond(t) THEN EmptyMap
    ELSE IF t.t # "expr" THEN [t |-> t.t, c |-> [i \in DOMAIN t.c |-> ProjCond(t.c[i])]]
    ELSE [t |-> "expr", l |-> t.cd.l.s, op |-> t.cd.op, r |-> t.cd.r.s,
          li |-> ProjOperand(t.cd.l), ri |-> ProjOperand(t.cd.r)]
ProjAliases(as) == [i \in DOMAIN as |-> [name |-> as[i].name, field |-> as[i].field]]
\* valid values of a text field have no order that matters: how often each is there
ValidTexts(vv) ==
    LET key(x) == x.v \o "|" \o ToString(x.since) \o "|" \o ToString(x.dep)
        ks == [i \in DOMAIN vv |-> key(vv[i])]
    IN [k \in Rng(ks) |-> Cardinality({ i \in DOMAIN ks : ks[i] = k })]

CommonKeys == {"kind", "name", "disp", "desc", "sem", "since", "dep", "rem", "pseudo", "fixedv", "custom", "foi",
    "fgen", "ovr", "ccf", "xattr", "xelem", "minl", "maxl", "bits"}
RECURSIVE ProjIn(_)
ProjKind(f) ==
    CASE f.kind = "int" -> Only(f, {"type", "endian", "serOff", "min", "max", "def", "scn", "scd", "ranges", "specials",
                "units", "vcv", "dd", "doff", "sext", "all"})
      [] f.kind = "enum" -> [uniq |-> \A a, b \in DOMAIN f.vals : a # b => f.vals[a].val # f.vals[b].val]
                @@ Only(f, {"type", "endian", "def", "vals", "rev", "nua", "vcv", "hex", "all"})
      [] f.kind = "set" -> [uniq |-> SetUnique(f)]
                @@ Only(f, {"type", "endian", "defb", "resb", "bitsl", "nua", "vcv", "all"})
      [] f.kind = "float" -> [nus |-> FloatNus(f)]
                @@ Only(f, {"type", "endian", "def", "ranges", "specials", "units", "vcv", "dd"})
      [] f.kind = "bitfield" -> [endian |-> f.endian, members |-> [i \in DOMAIN f.members |-> ProjIn(f.members[i])],
                valid |-> ProjCond(f.valid)]
      [] f.kind = "bundle" -> [members |-> [i \in DOMAIN f.members |-> ProjIn(f.members[i])],
                aliases |-> ProjAliases(f.aliases), valid |-> ProjCond(f.valid)]
      [] f.kind = "string" -> Only(f, {"def", "enc", "flen", "zterm", "detp"}) @@ [vv |-> ValidTexts(f.vv)]
                @@ [k \in {"lenp"} \cap DOMAIN f |-> ProjIn(f.lenp)]
      [] f.kind = "data" -> Only(f, {"def", "flen", "detp"}) @@ [vv |-> ValidTexts(f.vv)]
                @@ [k \in {"lenp"} \cap DOMAIN f |-> ProjIn(f.lenp)]
      [] f.kind = "list" -> Only(f, {"fcount", "dcp", "dlp", "delp", "dts", "efl"})
                @@ [k \in {"elem", "cp", "lp", "elp", "ts"} \cap DOMAIN f |-> ProjIn(f[k])]
      [] f.kind = "ref" -> [ref |-> ProjIn(f.ref)]
      [] f.kind = "optional" -> Only(f, {"mode", "morf", "moi"}) @@ [field |-> ProjIn(f.field), cond |-> ProjCond(f.cond)]
      [] f.kind = "variant" -> [members |-> [i \in DOMAIN f.members |-> ProjIn(f.members[i])], defi |-> f.defi]
ProjIn(f) == IF f.xref # "" THEN [ext |-> f.xref] ELSE ProjKind(f) @@ Only(f, CommonKeys)
ProjTop(f) == ProjKind(f) @@ Only(f, CommonKeys \cup {"xref"})
ProjSeq(fs) == [i \in DOMAIN fs |-> ProjIn(fs[i])]
ProjMessage(m) ==
    [fields |-> ProjSeq(m.fields), aliases |-> ProjAliases(m.aliases), construct |-> ProjCond(m.construct),
     readc |-> ProjCond(m.readc), validc |-> ProjCond(m.valid), platforms |-> m.platforms]
    @@ Only(m, {"name", "xref", "disp", "desc", "id", "order", "minl", "maxl", "since", "dep", "rem", "custom", "foi",
                "sender", "ovr", "ccf", "xattr", "xelem"})
ProjIface(m) ==
    [fields |-> ProjSeq(m.fields), aliases |-> ProjAliases(m.aliases)]
    @@ Only(m, {"name", "xref", "desc", "ccf", "xattr", "xelem"})
ProjLayer(ls, i, dsl) ==
    LET l == ls[i] IN
    Only(l, {"name", "disp", "desc", "kind", "xattr", "xelem"})
    @@ [k \in {"field"} \cap DOMAIN l |-> ProjIn(l.field)]
    @@ CASE l.kind = "custom" -> Only(l, {"sem", "from", "until"})
         [] l.kind = "sync" -> Only(l, {"seek", "vbr", "from"})
                @@ [after |-> (dsl = 0 \/ dsl >= 8) /\ KindAt(ls, "payload") < i]
                @@ [k \in {"escf"} \cap DOMAIN l |-> ProjIn(l.escf)]
         [] l.kind = "value" -> Only(l, {"ifaces", "fname", "fidx", "pseudo"})
         [] l.kind = "checksum" -> Only(l, {"alg", "algn", "from", "until", "vbr"})
         [] OTHER -> EmptyMap
ProjFrame(f, dsl) ==
    [layers |-> [i \in DOMAIN f.layers |-> ProjLayer(f.layers, i, dsl)]]
    @@ Only(f, {"name", "xref", "disp", "desc", "xattr", "xelem"})
RECURSIVE ProjNs(_, _)
ProjNs(ns, dsl) ==
    [nss |-> [x \in DOMAIN ns.nss |-> ProjNs(ns.nss[x], dsl)],
     fields |-> [x \in DOMAIN ns.fields |-> ProjTop(ns.fields[x])],
     msgs |-> [x \in DOMAIN ns.msgs |-> ProjMessage(ns.msgs[x])],
     ifaces |-> [x \in DOMAIN ns.ifaces |-> ProjIface(ns.ifaces[x])],
     frames |-> [x \in DOMAIN ns.frames |-> ProjFrame(ns.frames[x], dsl)]]
    @@ Only(ns, {"name", "xref", "disp", "desc", "xattr", "xelem"})
ProjSchema(s) ==
    [platforms |-> s.platforms, nss |-> [x \in DOMAIN s.nss |-> ProjNs(s.nss[x], s.dsl)]]
    @@ Only(s, {"name", "disp", "desc", "id", "version", "dsl", "endian", "numa", "xattr", "xelem"})

\* the listing of all messages: each once, in order
ListingOk(s, all) ==
    LET ms == SchemaMsgs(s)
        of(x) == CHOOSE i \in DOMAIN ms : ms[i].xref = x
    IN /\ Len(all) = Len(ms)
       /\ Rng(all) = { ms[i].xref : i \in DOMAIN ms }
       /\ \A i \in 1..(Len(all) - 1) : MsgLe(ms[of(all[i])], ms[of(all[i + 1])])
===========================================================================
