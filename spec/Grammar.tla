------------------------------- MODULE Grammar ------------------------------
(* The form of every kind of group.  A pattern is a sequence of components   *)
(* [n: field name, a: set of alternative texts, opt: may be absent, lens];   *)
(* a group has the kind's form iff some pattern of the kind spells the whole *)
(* group.  The two words of compound groups are separated by one blank.      *)
EXTENDS Text

Cat(A, C) == {a \o c : a \in A, c \in C}
D1 == Digit
D2 == Cat(Digit, Digit)
D3 == Cat(D2, Digit)
D4 == Cat(D3, Digit)
Upto(lo, hi, w) == {Pad(n, w) : n \in lo..hi}
Day31 == Upto(1, 31, 2)
H23 == Upto(0, 23, 2)
H24 == Upto(0, 24, 2)
M59 == Upto(0, 59, 2)
Tens(lo) == {Pad(10 * n, 3) : n \in lo..36}

Comp(n, a, o) == [n |-> n, a |-> a, opt |-> o, lens |-> {Len(x) : x \in a}]
R(n, a) == Comp(n, a, FALSE)
O(n, a) == Comp(n, a, TRUE)
K(t) == R("", {t})
Alt(s) == R("", s)
OK(t) == O("", {t})

RWY == O("side", {"R", "L", "C"})
Compass == {"N", "NE", "E", "SE", "S", "SW", "W", "NW"}
Intensities == {"-VC", "+VC", "-", "+", "VC"}
Descriptors == {"MI", "PR", "BC", "DR", "BL", "SH", "TS", "FZ"}
Precipitations == {"DZ", "RA", "SN", "SG", "IC", "PL", "GR", "GS", "UP"}
Obscurations == {"BR", "FG", "FU", "VA", "DU", "SA", "HZ", "PY"}
Others == {"PO", "SQ", "FC", "SS", "DS", "NSW"}
Covers == {"VV", "CLR", "SKC", "NSC", "NCD", "BKN", "SCT", "FEW", "OVC", "0VC", "///"}
CloudTypes == {"TCU", "CB", "///"}

WindPats(dirs, spds) ==
  << <<R("dir", dirs), OK("P"), R("speed", spds), R("units", {"KT", "MPS"})>>,
     <<R("dir", dirs), OK("P"), R("speed", spds), K("G"), OK("P"), R("gust", D2 \cup D3), R("units", {"KT", "MPS"})>> >>

VisPats(v) ==
  << <<R("vis", v), O("dir", Compass)>>,
     <<R("cavok", {"CAVOK"})>>,
     <<O("mp", {"M", "P"}), O("int", D1 \cup D2), OK(" "), O("frac", Cat(Cat(D1, {"/"}), D1 \ {"0"})), R("units", {"SM", "KM", "M", "U"})>> >>

RvrPats ==
  << <<K("R"), R("num", D2), RWY, K("/"), O("mlow", {"M", "P"}), R("low", D2 \cup D3 \cup D4), O("units", {"FT"}), O("trend", {"N", "D", "U"})>>,
     <<K("R"), R("num", D2), RWY, K("/"), O("mlow", {"M", "P"}), R("low", D2 \cup D3 \cup D4),
       K("V"), O("mhigh", {"M", "P"}), R("high", D2 \cup D3 \cup D4), O("units", {"FT"}), O("trend", {"N", "D", "U"})>> >>

TempSet == D2 \cup {"//", "XX", "MM"}

Kinds == {"type", "station", "time", "modifier", "wind", "windvar", "vis", "minvis", "rvr", "weather", "cloud",
          "temps", "press", "recent", "shear", "sea", "rwystate", "trendind", "trendtime",
          "amdcor", "nil", "valid", "cnl", "tafwind", "tafvis", "taftemp", "changeind"}

\* a record, so that TLC keeps its value
Pat == [
    type      |-> << <<R("type", {"METAR", "SPECI", "TAF"})>> >>,
    station   |-> << <<Alt(Upper), Alt(UpperDigit), Alt(UpperDigit), Alt(UpperDigit)>> >>,
    time      |-> << <<R("day", Day31), R("hour", H23), R("min", M59), K("Z")>> >>,
    modifier  |-> << <<R("mod", {"COR", "CORR", "AMD", "NIL", "TEST", "FINO", "AUTO"})>> >>,
    wind      |-> WindPats(Tens(0) \cup {"///", "VRB"}, D2 \cup D3 \cup {"//", "///"}),
    windvar   |-> << <<R("from", Tens(1)), K("V"), R("to", Tens(1))>> >>,
    vis       |-> VisPats(D4 \cup {"////"}),
    minvis    |-> << <<R("vis", D4 \cup {"////"}), O("dir", Compass)>> >>,
    rvr       |-> RvrPats,
    weather   |-> << <<O("int", Intensities), O("desc", Descriptors), R("prec", Precipitations)>>,
                            <<O("int", Intensities), O("desc", Descriptors), R("obsc", Obscurations)>>,
                            <<O("int", Intensities), O("desc", Descriptors), R("other", Others \cup {"/"})>>,
                            <<O("int", Intensities), O("desc", Descriptors)>> >>,
    cloud     |-> << <<R("cover", Covers), O("height", D3 \cup {"///"}), O("type", CloudTypes)>> >>,
    temps     |-> << <<O("tsign", {"M", "-"}), R("temp", TempSet), K("/"), O("dsign", {"M", "-"}), R("dew", TempSet)>> >>,
    press     |-> << <<O("units", {"A", "Q", "QNH"}), R("press", D4 \cup {"////"}), O("units2", {"INS"})>> >>,
    recent    |-> << <<K("RE"), O("desc", Descriptors), O("prec", Precipitations), O("obsc", Obscurations \ {"FU"}), O("other", Others \ {"NSW"})>> >>,
    shear     |-> << <<K("WS"), O("all", {" ALL"}), K(" "), R("rwy", {"RWY"})>>,
                            <<K("WS"), O("all", {" ALL"}), K(" "), K("R"), R("num", D2), RWY>> >>,
    sea       |-> << <<K("W"), O("sign", {"M"}), R("temp", D2), K("/"), K("S"), R("state", D1)>>,
                            <<K("W"), O("sign", {"M"}), R("temp", D2), K("/"), K("H"), R("height", D3)>> >>,
    rwystate  |-> << <<K("R"), R("num", D2), RWY, K("/"), R("deposit", D1 \cup {"/"}), R("cont", D1 \cup {"/"}), R("depth", D2 \cup {"//"}), R("fric", D2 \cup {"//"})>>,
                            <<K("R"), K("/"), R("deposit", D1 \cup {"/"}), R("cont", D1 \cup {"/"}), R("depth", D2 \cup {"//"}), R("fric", D2 \cup {"//"})>>,
                            <<K("R"), R("num", D2), RWY, K("/"), R("word", {"SNOCLO", "CLRD//"})>>,
                            <<K("R"), K("/"), R("word", {"SNOCLO", "CLRD//"})>> >>,
    trendind  |-> << <<R("ind", {"TEMPO", "BECMG", "NOSIG"})>> >>,
    trendtime |-> << <<R("prefix", {"FM", "TL", "AT"}), R("hour", H24), R("min", M59)>> >>,
    amdcor    |-> << <<R("mod", {"COR", "AMD"})>> >>,
    nil       |-> << <<K("NIL")>> >>,
    valid     |-> << <<R("fmday", Day31), R("fmhour", H23), K("/"), R("tlday", Day31), R("tlhour", H24)>> >>,
    cnl       |-> << <<K("CNL")>> >>,
    tafwind   |-> WindPats(Tens(0) \cup {"VRB"}, D2 \cup D3),
    tafvis    |-> VisPats(D4),
    taftemp   |-> << <<K("T"), R("type", {"N", "X"}), O("sign", {"M"}), R("temp", D2), K("/"), R("day", Day31), R("hour", H23), K("Z")>> >>,
    changeind |-> << <<R("ind", {"TEMPO", "BECMG", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO"})>>,
                            <<R("ind", {"FM"}), R("day", Day31), R("hour", H23), R("min", M59)>> >>]

RECURSIVE Spell(_, _, _, _)
\* all ways to spell s from position i on with the components of P from the k-th on
Spell(P, k, s, i) ==
  IF k > Len(P) THEN (IF i = Len(s) + 1 THEN {<<>>} ELSE {})
  ELSE LET c == P[k] IN
       UNION { LET x == SubSeq(s, i, i + l - 1) IN
               IF x \in c.a THEN {<<x>> \o r : r \in Spell(P, k + 1, s, i + l)} ELSE {}
               : l \in {l \in c.lens : i + l - 1 <= Len(s)} }
       \cup (IF c.opt THEN {<<"">> \o r : r \in Spell(P, k + 1, s, i)} ELSE {})

Fits(P, s) == Spell(P, 1, s, 1) # {}

\* bounds on the length and the first character of what fits, to decide most groups at once
RECURSIVE Least(_, _), Most(_, _), Firsts(_, _), Bounds(_, _)
Least(P, k) == IF k > Len(P) THEN 0 ELSE (IF P[k].opt THEN 0 ELSE Min(P[k].lens)) + Least(P, k + 1)
Most(P, k) == IF k > Len(P) THEN 0 ELSE Max(P[k].lens) + Most(P, k + 1)
Firsts(P, k) == IF k > Len(P) THEN {} ELSE {Char(x, 1) : x \in P[k].a} \cup (IF P[k].opt THEN Firsts(P, k + 1) ELSE {})
Bounds(ps, a) == IF a > Len(ps) THEN <<>>
                 ELSE <<[lo |-> Least(ps[a], 1), hi |-> Most(ps[a], 1), first |-> Firsts(ps[a], 1)]>> \o Bounds(ps, a + 1)
Bound == [
    type      |-> Bounds(Pat.type, 1),
    station   |-> Bounds(Pat.station, 1),
    time      |-> Bounds(Pat.time, 1),
    modifier  |-> Bounds(Pat.modifier, 1),
    wind      |-> Bounds(Pat.wind, 1),
    windvar   |-> Bounds(Pat.windvar, 1),
    vis       |-> Bounds(Pat.vis, 1),
    minvis    |-> Bounds(Pat.minvis, 1),
    rvr       |-> Bounds(Pat.rvr, 1),
    weather   |-> Bounds(Pat.weather, 1),
    cloud     |-> Bounds(Pat.cloud, 1),
    temps     |-> Bounds(Pat.temps, 1),
    press     |-> Bounds(Pat.press, 1),
    recent    |-> Bounds(Pat.recent, 1),
    shear     |-> Bounds(Pat.shear, 1),
    sea       |-> Bounds(Pat.sea, 1),
    rwystate  |-> Bounds(Pat.rwystate, 1),
    trendind  |-> Bounds(Pat.trendind, 1),
    trendtime |-> Bounds(Pat.trendtime, 1),
    amdcor    |-> Bounds(Pat.amdcor, 1),
    nil       |-> Bounds(Pat.nil, 1),
    valid     |-> Bounds(Pat.valid, 1),
    cnl       |-> Bounds(Pat.cnl, 1),
    tafwind   |-> Bounds(Pat.tafwind, 1),
    tafvis    |-> Bounds(Pat.tafvis, 1),
    taftemp   |-> Bounds(Pat.taftemp, 1),
    changeind |-> Bounds(Pat.changeind, 1)]
Plausible(b, s) == Len(s) >= b.lo /\ Len(s) <= b.hi /\ (Len(s) = 0 \/ Char(s, 1) \in b.first)
Matches(k, s) == \E a \in 1..Len(Pat[k]) : Plausible(Bound[k][a], s) /\ Fits(Pat[k][a], s)

\* the fields of a group of kind k (a function from field names), any reading of it
Fields(k, s) ==
  LET a == CHOOSE x \in 1..Len(Pat[k]) : Fits(Pat[k][x], s)
      P == Pat[k][a]
      r == CHOOSE x \in Spell(P, 1, s, 1) : TRUE
      ns == {P[j].n : j \in 1..Len(P)} \ {""}
  IN  [n \in ns |-> r[CHOOSE j \in 1..Len(P) : P[j].n = n]]
G(f, n) == IF n \in DOMAIN f THEN f[n] ELSE ""
=============================================================================
