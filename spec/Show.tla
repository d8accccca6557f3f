-------------------------------- MODULE Show --------------------------------
(* What the generated classes say about themselves at run time: the names   *)
(* of fields, messages, enumerators, special values, bits and members of    *)
(* variants, the units of values, the decimals to display.                  *)
EXTENDS GenFields

\* the text shown for an element: its display name, where it has one
ShownAs(e, n) == IF e.disp = "" THEN n ELSE IF e.disp = "_" THEN "" ELSE e.disp
\* names shown for those of xs, which are called S[x]: the current ones if there are any
Texts(cx, S, xs) ==
    LET now == { x \in xs : Ver(cx) < S[x].dep }
    IN { ShownAs(S[x], x) : x \in IF now = {} THEN xs ELSE now }
Rising(vs) == \A i \in 2..Len(vs) : WLt(vs[i - 1], vs[i])

\* each value which exists, once, in rising order; no other
WrongValueNames(cx, at, f, m) ==
    LET here == { x \in DOMAIN f.vals : Ex(cx, f.vals[x].since, f.vals[x].dep, FALSE) }
        Name(n) == IF n \in DOMAIN f.vals THEN n
                   ELSE IF StartsWith(n, "MsgId_") THEN SubSeq(n, 7, Len(n)) ELSE n
        known(e) == e[1] = "i" \/ Name(e[2]) \in DOMAIN f.vals
        value(e) == IF e[1] = "i" THEN WN(e[2]) ELSE f.vals[Name(e[2])].val
        vs == [i \in DOMAIN m |-> Unsigned(f, value(m[i]))]
        ok == \A i \in DOMAIN m : known(m[i])
    IN IF ~ok THEN {<<"names of unknown values of " \o at, ToString(m)>>}
       ELSE Wrong("order of the names of values of " \o at, Rising(vs), <<m, vs>>)
            \cup Wrong("values which are named by " \o at, Rng(vs) = { Unsigned(f, f.vals[x].val) : x \in here }, <<m, here>>)
            \cup UNION { LET xs == { x \in here : f.vals[x].val = value(m[i]) } IN
                         Wrong("name of a value of " \o at, xs = {} \/ m[i][3] \in Texts(cx, f.vals, xs), <<m[i], xs>>) : i \in DOMAIN m }
WrongSpecialNames(cx, at, f, m) ==
    LET here == { x \in DOMAIN f.specials : Ex(cx, f.specials[x].since, f.specials[x].dep, TRUE) }
        of(i) == { x \in here : "value" \o Cls(x) = m[i][1] }
        vs == [i \in DOMAIN m |-> LET x == CHOOSE y \in of(i) : TRUE IN IF f.kind = "int" THEN Unsigned(f, f.specials[x].val) ELSE f.specials[x].val]
    IN Wrong("special values which are named by " \o at,
             Len(m) = Cardinality(here) /\ { m[i][1] : i \in DOMAIN m } = { "value" \o Cls(x) : x \in here }, <<m, here>>)
       \cup (IF \E i \in DOMAIN m : of(i) = {} THEN {}
             ELSE Wrong("order of the names of special values of " \o at,
                        f.kind = "float" \/ \A i \in 2..Len(vs) : WLe(vs[i - 1], vs[i]), <<m, vs>>)
                  \cup UNION { Wrong("name of a special value of " \o at,
                                     \E x \in of(i) : m[i][2] \in {x, ShownAs(f.specials[x], x)}, m[i]) : i \in DOMAIN m })
WrongBitNames(cx, at, f, m) ==
    LET there(i) == BitsAt(f, i)
        here == { x \in DOMAIN f.bitsl : Ex(cx, f.bitsl[x].since, f.bitsl[x].dep, FALSE) }
    IN UNION { Wrong("name of a bit of " \o at, there(m[i][1]) # {} /\ m[i][2] \in Texts(cx, f.bitsl, there(m[i][1])), <<m[i], there(m[i][1])>>) : i \in DOMAIN m }
       \cup Wrong("bits which are named by " \o at, { f.bitsl[x].idx : x \in here } \subseteq { m[i][1] : i \in DOMAIN m }, <<m, here>>)

UnitNames == <<"Nanoseconds", "Microseconds", "Milliseconds", "Seconds", "Minutes", "Hours", "Days", "Weeks", "Nanometers", "Micrometers",
    "Millimeters", "Centimeters", "Meters", "Kilometers", "NanometersPerSecond", "MicrometersPerSecond", "MillimetersPerSecond",
    "CentimetersPerSecond", "MetersPerSecond", "KilometersPerSecond", "KilometersPerHour", "Hertz", "Kilohertz", "Megahertz", "Gigahertz",
    "Degrees", "Radians", "Nanoamps", "Microamps", "Milliamps", "Amps", "Kiloamps", "Nanovolts", "Microvolts", "Millivolts", "Volts",
    "Kilovolts", "Bytes", "Kilobytes", "Megabytes", "Gigabytes", "Terabytes">>
WrongShow(cx, x, obs) ==
    LET at == x[2]
        e == x[3][1]
        map(m) == At(m, at, <<>>)
        numeric == e.kind \in {"int", "float"}
    IN Wrong("name of " \o at, at \in DOMAIN obs.shown /\ At(obs.shown, at, "") = ShownAs(e, e.name), <<At(obs.shown, at, "none"), e.disp>>)
       \cup (IF e.kind = "enum" THEN WrongValueNames(cx, at, e, map(obs.vmap)) ELSE Wrong("names of values of " \o at, at \notin DOMAIN obs.vmap, map(obs.vmap)))
       \cup (IF numeric THEN WrongSpecialNames(cx, at, e, map(obs.smap)) ELSE {})
       \cup (IF e.kind = "set" THEN WrongBitNames(cx, at, e, map(obs.bmap)) ELSE {})
       \cup (IF e.kind # "variant" THEN {}
             ELSE Wrong("names of the members of " \o at,
                        map(obs.mmap) = [i \in DOMAIN e.members |-> ShownAs(e.members[i], e.members[i].name)], map(obs.mmap)))
       \cup (IF ~numeric THEN {}
             ELSE Wrong("units of " \o at, map(obs.units) = IF e.units = 0 THEN <<>> ELSE <<"Units" \o UnitNames[e.units]>>, <<map(obs.units), e.units>>)
                  \* integers which are not scaled have no decimals
                  \cup Wrong("decimals of " \o at, At(obs.dd, at, 0) = e.dd \/ (e.kind = "int" /\ e.scn = e.scd /\ at \notin DOMAIN obs.dd), <<At(obs.dd, at, 0), e.dd>>))
WrongShown(st, u, o, obs) ==
    LET cx == Around(st, u.s, o)
        fs == UnitFacts(cx, u, NsOf(st, u))
    IN UNION { WrongShow(cx, fs[i], obs) : i \in { k \in DOMAIN fs : fs[k][1] = "shown" } }
=============================================================================
