------------------------------- MODULE Families -------------------------------
(* Random members of the input space, spelled from the grammar of Grammar    *)
(* and the slots of Slots.  TLC writes the CASES of each step of Plan; the     *)
(* choices follow TLC's -seed.  An argument n only keeps TLC from sharing    *)
(* one random choice between uses.                                           *)
EXTENDS Sections, Slots, Calendar, Decode, Json, IOUtils, Randomization

VARIABLE at
\* the families to write: a sequence of [f: family, size, cap, pr: property]
Plan == ndJsonDeserialize(IOEnv.PLAN)
FAMILY == Plan[at].f
PROP == Plan[at].pr
SIZE == Plan[at].size
CAP == Plan[at].cap
SHARD == Val(IOEnv.SHARD)
SHARDS == Val(IOEnv.SHARDS)

Pick(S, n) == RandomElement(S)
Chance(p, n) == RandomElement(1..100) <= p
OneOf(q, n) == q[RandomElement(1..Len(q))]

---------------------------------------------------------------------------
(* Groups.                                                                   *)
\* round values and their neighbours; what stands for an unknown value
Round == {"10", "00", "99", "01", "000", "001", "999", "998", "100", "0001", "9999", "9998"}
         \cup UNION {{Pad(x, 4), Pad(x + 1, 4)} \cup (IF x > 0 THEN {Pad(x - 1, 4)} ELSE {}) : x \in {500 * k : k \in 0..19} \cup {800, 1600, 2900, 3000, 1013, 2992}}
Marked == {"///", "////", "//", "VRB"}
\* a value of a field; of large fields, the odd and the round ones more often than their share
PickOf(S, n) ==
  IF Cardinality(S) <= 60 THEN Pick(S, n)
  ELSE LET x == RandomElement(1..100)
           T == IF x > 20 THEN {} ELSE {y \in (IF x <= 8 THEN Marked ELSE Round) : y \in S}
       IN  IF T = {} THEN Pick(S, n) ELSE RandomElement(T)
RECURSIVE SpellAny(_, _, _, _)
\* a text of the components of P from the k-th on; the component j has text x
SpellAny(P, k, j, x) ==
  IF k > Len(P) THEN ""
  ELSE (IF k = j THEN x
        ELSE IF P[k].opt /\ Chance(60, k) THEN ""
        ELSE PickOf(P[k].a, k)) \o SpellAny(P, k + 1, j, x)
\* the fields of P of which an earlier field, the value of Twin, has the same alternatives
Large(c) == Cardinality(c.a) > 9
Twins(P) == {k \in 1..Len(P) : Large(P[k]) /\ \E i \in 1..(k - 1) : Large(P[i]) /\ P[i].a = P[k].a}
TwinsOf == TLCEval([k \in Kinds |-> [a \in 1..Len(Pat[k]) |-> Twins(Pat[k][a])]])
Twin(P, k) == CHOOSE i \in 1..(k - 1) : Large(P[i]) /\ P[i].a = P[k].a
RECURSIVE SpellTwins(_, _, _, _)
SpellTwins(P, T, k, had) ==
  IF k > Len(P) THEN ""
  ELSE LET w == IF k \in T THEN had[Twin(P, k)] ELSE IF P[k].opt /\ Chance(40, k) THEN "" ELSE PickOf(P[k].a, k)
       IN  w \o SpellTwins(P, T, k + 1, Append(had, w))

NonEmpty(s) == IF s = "" THEN "BR" ELSE s
AnyGroup(k, n) ==
  LET a == Pick(1..Len(Pat[k]), n)
      P == Pat[k][a]
      T == TwinsOf[k][a]
  IN  NonEmpty(IF T # {} /\ Chance(15, n) THEN SpellTwins(P, T, 1, <<>>) ELSE SpellAny(P, 1, 0, ""))

\* a choice of about CAP alternatives of a component, the round ones and their neighbours among them
Some(S, n) == IF Cardinality(S) <= CAP THEN S ELSE RandomSubset(CAP, S) \cup (Round \cap S)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

RECURSIVE CompValues(_, _, _), PatValues(_, _)
CompValues(k, a, j) ==
  IF j > Len(Pat[k][a]) THEN <<>>
  ELSE LET c == Pat[k][a][j]
           xs == SetToSeq(Some(c.a, j) \cup (IF c.opt THEN {""} ELSE {}))
       IN  [i \in 1..Len(xs) |-> [k |-> k, a |-> a, j |-> j, x |-> xs[i]]] \o CompValues(k, a, j + 1)
PatValues(k, a) == IF a > Len(Pat[k]) THEN <<>> ELSE CompValues(k, a, 1) \o PatValues(k, a + 1)
\* every alternative of every component of every form of kind k
EachValue(k) == PatValues(k, 1)
GroupWith(v) == IF v.a = 0 THEN NonEmpty(v.x) ELSE NonEmpty(SpellAny(Pat[v.k][v.a], 1, v.j, v.x))

\* the number of groups of a form, and all of them
RECURSIVE Size(_, _), AllOf(_, _)
Size(P, k) == IF k > Len(P) THEN 1 ELSE LET m == (Cardinality(P[k].a) + (IF P[k].opt THEN 1 ELSE 0)) * Size(P, k + 1) IN IF m > 100000 THEN 100000 ELSE m
AllOf(P, k) == IF k > Len(P) THEN {""} ELSE Cat(P[k].a \cup (IF P[k].opt THEN {""} ELSE {}), AllOf(P, k + 1))
\* forms with few members: all of them
SmallForms(k) == FlattenSeqs([a \in 1..Len(Pat[k]) |->
                   IF Size(Pat[k][a], 1) > 12 * CAP THEN <<>>
                   ELSE LET xs == SetToSeq(AllOf(Pat[k][a], 1)) IN [i \in 1..Len(xs) |-> [k |-> k, a |-> 0, j |-> 0, x |-> xs[i]]]])
\* every pair of values of two fields; of large fields, the round values
Few(c) == (IF Cardinality(c.a) <= 12 THEN c.a ELSE LET r == Round \cap c.a IN (IF r = {} THEN RandomSubset(6, c.a) ELSE r) \cup (c.a \cap Marked))
          \cup (IF c.opt THEN {""} ELSE {})
RECURSIVE SpellTwo(_, _, _)
SpellTwo(P, k, two) ==
  IF k > Len(P) THEN ""
  ELSE (IF k \in DOMAIN two THEN two[k] ELSE IF P[k].opt /\ Chance(60, k) THEN "" ELSE PickOf(P[k].a, k)) \o SpellTwo(P, k + 1, two)
EachPair(k) == FlattenSeqs([a \in 1..Len(Pat[k]) |->
                 LET P == Pat[k][a]
                     Js == {j \in 1..Len(P) : P[j].opt \/ Cardinality(P[j].a) > 1}
                     Ps == UNION {LET X == Few(P[j])
                                       Y == Few(P[i])
                                       big == Cardinality(X) > 15 /\ Cardinality(Y) > 15
                                   IN  {<<j, i, x, y>> : x \in IF big THEN RandomSubset(15, X) ELSE X, y \in IF big THEN RandomSubset(15, Y) ELSE Y} : <<j, i>> \in {p \in Js \X Js : p[1] < p[2]}}
                     q == SetToSeq(Ps)
                 IN  IF Size(P, 1) <= 12 * CAP THEN <<>>
                     ELSE [i \in 1..Len(q) |-> [k |-> k, a |-> 0, j |-> 0, x |-> SpellTwo(P, 1, (q[i][1] :> q[i][3]) @@ (q[i][2] :> q[i][4]))]]])
\* every member of the small forms, every value of every field of the others and every pair of values of their fields
EachGroup(k) == SelectSeq(EachValue(k), LAMBDA v : Size(Pat[k][v.a], 1) > 12 * CAP) \o SmallForms(k) \o EachPair(k)

---------------------------------------------------------------------------
(* Parts.                                                                    *)
FirstSlot(part, k) == Min({i \in 1..Len(Table[part]) : Table[part][i] = k})
Capacity(part, k) == Cardinality({i \in 1..Len(Table[part]) : Table[part][i] = k})
Always == {"station", "time", "trendind", "changeind"}

RECURSIVE Fill(_, _, _, _, _)
\* the groups of a part in reporting order: gs at slot s, others with chance p
Fill(part, i, s, gs, p) ==
  IF i > Len(Table[part]) THEN <<>>
  ELSE LET k == Table[part][i] IN
       (IF i = s THEN gs
        \* an earlier slot that would take one of gs is taken
        ELSE IF i < s /\ k # Table[part][s] /\ \E j \in 1..Len(gs) : Matches(k, gs[j]) THEN <<AnyGroup(k, i)>>
        ELSE IF s > 0 /\ k = Table[part][s] /\ p < 50 THEN <<>>
        ELSE IF Chance(IF k \in Always THEN 100 ELSE p, i)
             THEN <<IF k = "station" THEN OneOf(<<"SKBO", "KJFK", "MROC", "UUDD", "EGLL", "FMMI">>, i) ELSE AnyGroup(k, i)>>
        ELSE <<>>) \o Fill(part, i + 1, s, gs, p)

Whole(part, p) == Fill(part, 1, 0, <<>>, p)
Short(kd) == IF kd = "METAR" THEN <<"METAR", "SKBO", "071830Z">> ELSE <<"TAF", "SKBO", "071700Z", "0718/0824">>
KindOfPart(part) == IF part \in {"metar", "trend"} THEN "METAR" ELSE "TAF"
\* the report whose part `part` holds ws and whose body is otherwise short
InPart(part, ws, n) == Join(IF part \in {"metar", "taf"} THEN ws ELSE Short(KindOfPart(part)) \o ws, " ")

Months31 == {1, 3, 5, 7, 8, 10, 12}
Case(kd, text, n) == [kind |-> kd, text |-> text, y |-> Pick(2000..2030, n), mo |-> Pick(Months31, n)]
CaseIn(part, ws, n) == Case(KindOfPart(part), InPart(part, ws, n), n)

PartsWith(k) == SetToSeq({p \in {"metar", "trend", "taf", "change"} : \E i \in 1..Len(Table[p]) : Table[p][i] = k})

---------------------------------------------------------------------------
(* Family "values": every value of every field of the kinds of a property.   *)
KindsFor(pr) ==
  CASE pr = "C14" -> <<"wind", "windvar", "tafwind">>
    [] pr = "C15" -> <<"vis", "minvis", "tafvis">>
    [] pr = "C16" -> <<"cloud">>
    [] pr = "C17" -> <<"weather", "recent">>
    [] pr = "C18" -> <<"temps", "press", "sea">>
    [] pr = "C19" -> <<"rvr", "shear", "rwystate">>
    [] pr = "C28" -> <<"type", "modifier", "amdcor", "nil", "cnl">>
    [] pr = "C13" -> <<"taftemp">>
    [] OTHER -> SetToSeq(Kinds)

ValueCase(v, part, n) ==
  LET slot == FirstSlot(part, v.k)
      m == IF Capacity(part, v.k) > 1 THEN Pick(1..Capacity(part, v.k), n) ELSE 1
      gs == [i \in 1..m |-> IF i = 1 THEN GroupWith(v) ELSE AnyGroup(v.k, i)]
      h == Pick(1..m, n)
  IN  CaseIn(part, Fill(part, 1, slot, SubSeq(gs, 2, h) \o <<gs[1]>> \o SubSeq(gs, h + 1, m), Pick({0, 0, 15, 40}, n)), n)

RECURSIVE ValueCases(_, _)
ValueCases(ks, j) ==
  IF j > Len(ks) THEN <<>>
  ELSE LET vs == EachGroup(ks[j])
           ps == PartsWith(ks[j])
           mine == {i \in 1..(Len(vs) * Len(ps)) : i % SHARDS = SHARD}
           is == SetToSeq(mine)
       IN  [i \in 1..Len(is) |-> ValueCase(vs[((is[i] - 1) \div Len(ps)) + 1], ps[(is[i] % Len(ps)) + 1], i)] \o ValueCases(ks, j + 1)

(* Family "dense": reports with as many groups of the property's kinds as    *)
(* they can hold in every part; of the forms that are not too many, all.     *)
DenseParts(kd) == IF kd = "METAR" THEN <<"metar", "trend", "trend">> ELSE <<"taf">> \o [i \in 1..7 |-> "change"]
DenseLead(p, i) ==
  CASE p = "metar" -> Short("METAR") [] p = "taf" -> Short("TAF")
    [] p = "trend" -> <<IF i = 2 THEN "TEMPO" ELSE "BECMG">>
    [] OTHER -> <<OneOf(<<"TEMPO 0720/0724", "BECMG 0719/0721", "PROB30 0800/0806", "PROB40 TEMPO 0810/0812", "FM072000">>, i)>>
DenseWords(kd, r, ks, all) ==
  LET pt == DenseParts(kd)
      each == [i \in 1..Len(pt) |-> Cardinality({j \in 1..Len(Table[pt[i]]) : Table[pt[i]][j] \in ks})]
      before(i) == LET RECURSIVE sum(_)
                       sum(x) == IF x = 0 THEN 0 ELSE each[x] + sum(x - 1)
                   IN  sum(i - 1)
      total == before(Len(pt) + 1)
      group(k, num) == LET few == all[k] IN
                       IF few = <<>> \/ Chance(25, num) THEN AnyGroup(k, num)
                       ELSE few[(num % Len(few)) + 1]
      words(i) == LET mine == SelectSeq([j \in 1..Len(Table[pt[i]]) |-> j], LAMBDA j : Table[pt[i]][j] \in ks)
                  IN  DenseLead(pt[i], i) \o [m \in 1..Len(mine) |-> group(Table[pt[i]][mine[m]], (r * SHARDS + SHARD) * total + before(i) + m)]
  IN  [i \in 1..Len(pt) |-> words(i)]
DenseCase(kd, r, ks, all) == Case(kd, Join(FlattenSeqs(DenseWords(kd, r, ks, all)), " "), r)
HeadKinds == {"type", "station", "time", "modifier", "amdcor", "nil", "cnl", "valid", "trendind", "trendtime", "changeind"}
\* the members of those forms that have less than so many
AllBelow(ks, most) == TLCEval([k \in ks |-> FlattenSeqs([a \in 1..Len(Pat[k]) |-> IF Size(Pat[k][a], 1) >= most THEN <<>> ELSE SetToSeq(AllOf(Pat[k][a], 1))])])
\* the members of all forms over a few values of each field
Thin(c) == (IF Cardinality(c.a) <= 10 THEN c.a ELSE {y \in Marked : y \in c.a} \cup RandomSubset(2, c.a)) \cup (IF c.opt THEN {""} ELSE {})
RECURSIVE ThinOf(_, _), ThinSize(_, _)
ThinSize(P, k) == IF k > Len(P) THEN 1 ELSE Cardinality(Thin(P[k])) * ThinSize(P, k + 1)
ThinOf(P, k) == IF k > Len(P) THEN {""} ELSE Cat(Thin(P[k]), ThinOf(P, k + 1))
AllThin(ks, most) == TLCEval([k \in ks |-> FlattenSeqs([a \in 1..Len(Pat[k]) |-> IF Size(Pat[k][a], 1) < most THEN SetToSeq(AllOf(Pat[k][a], 1))
                                                                           ELSE IF ThinSize(Pat[k][a], 1) < most THEN SetToSeq(ThinOf(Pat[k][a], 1)) ELSE <<>>])])
DenseCases ==
  LET ks == ToSet(KindsFor(PROP)) \ HeadKinds
      all == AllBelow(ks, IF SIZE > 780 THEN 100000 ELSE SIZE * SHARDS * 16)
      kds == {kd \in {"METAR", "TAF"} : \E i \in 1..Len(DenseParts(kd)) : \E j \in 1..Len(Table[DenseParts(kd)[i]]) : Table[DenseParts(kd)[i]][j] \in ks}
  IN  FlattenSeqs([d \in 1..2 |-> LET kd == <<"METAR", "TAF">>[d] IN IF kd \notin kds THEN <<>> ELSE [r \in 1..SIZE |-> DenseCase(kd, r, ks, all)]])

---------------------------------------------------------------------------
(* Family "departures": groups a step or two away from well-formed ones.     *)
Printable == <<"!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", ">", "?", "@",
           "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "`",
           "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~">>
\* characters beyond ASCII: letters, digits of other scripts, a superscript, a fraction, signs
Exotic == <<"é", "Ñ", "К", "٣", "９", "²", "½", "°", "–", "”", "中", "ﬀ">>
Ascii0 == Printable \o Exotic
OddChars == Upper \cup Digit \cup {"/", "+", "-", ".", ",", ":", ";", "*", "|", "a", "z", "(", ")", "?", "$", "#", "[", "%"}
Cut(g, i) == SubSeq(g, 1, i - 1) \o SubSeq(g, i + 1, Len(g))
Put(g, i, c) == SubSeq(g, 1, i) \o c \o SubSeq(g, i + 1, Len(g))
Swap(g, i, c) == SubSeq(g, 1, i - 1) \o c \o SubSeq(g, i + 1, Len(g))
NearChar(c, n) == IF Chance(50, n) THEN (IF c \in Digit THEN Pick(Digit, n) ELSE Pick(Upper, n)) ELSE Pick(OddChars, n)
Depart(g, n) ==
  LET i == Pick(1..Len(g), n) IN
  CASE Chance(12, n) -> Put(g, Len(g), Pick(OddChars, n))
    [] Chance(12, n) -> Put(g, 0, Pick(OddChars, n))
    [] Chance(20, n) -> IF Len(g) > 1 THEN Cut(g, i) ELSE g \o g
    [] Chance(25, n) -> Put(g, i, NearChar(Char(g, i), n))
    [] Chance(10, n) -> Put(g, i, Char(g, i))
    [] Chance(4, n)  -> Lowered(g)
    [] Chance(3, n)  -> Titled(g)
    [] Chance(8, n)  -> SubSeq(g, 1, i)
    [] Chance(8, n)  -> SubSeq(g, i, Len(g))
    [] Chance(8, n)  -> IF Len(g) > 1 /\ i < Len(g) THEN SubSeq(g, 1, i - 1) \o Char(g, i + 1) \o Char(g, i) \o SubSeq(g, i + 2, Len(g)) ELSE g \o "X"
    [] OTHER         -> Swap(g, i, NearChar(Char(g, i), n))

DepartCase(k, n) ==
  LET part == OneOf(PartsWith(k), n)
      slot == FirstSlot(part, k)
      m == Pick(1..4, n)
      gs == [i \in 1..m |-> LET g == Depart(AnyGroup(k, i), i) IN IF Chance(15, i) THEN Depart(g, i) ELSE g]
      tail == IF Chance(60, n) THEN <<AnyGroup(k, n)>> ELSE <<>>
  IN  CaseIn(part, Fill(part, 1, slot, gs \o tail, Pick({0, 0, 20}, n)), n)

DepartCases == [n \in 1..SIZE |-> DepartCase(Pick(IF PROP = "C03" THEN Kinds ELSE ToSet(KindsFor(PROP)), n), n)]

\* all departures of one character, and all heads and tails, of a group of every form of every kind, many to a report
AllChars == SetToSeq({Ascii0[i] : i \in 1..Len(Ascii0)})
AllDepartures(g) ==
  <<Lowered(g), Titled(g)>> \o
  FlattenSeqs([i \in 1..(Len(g) + 1) |->
     [c \in 1..Len(AllChars) |-> Put(g, i - 1, AllChars[c])]
     \o (IF i > Len(g) THEN <<>>
         ELSE <<NonEmpty(Cut(g, i)), SubSeq(g, 1, i), SubSeq(g, i, Len(g)), g \o SubSeq(g, 1, i)>>
              \o (IF i < Len(g) THEN <<SubSeq(g, 1, i - 1) \o Char(g, i + 1) \o Char(g, i) \o SubSeq(g, i + 2, Len(g))>> ELSE <<>>)
              \o [c \in 1..Len(AllChars) |-> Swap(g, i, AllChars[c])])])
Batch == 24
Packed(part, k, ds) ==
  LET slot == FirstSlot(part, k) IN
  [b \in 1..((Len(ds) + Batch - 1) \div Batch) |->
     CaseIn(part, Fill(part, 1, slot, SubSeq(ds, Batch * b - Batch + 1, IF Batch * b < Len(ds) THEN Batch * b ELSE Len(ds)), 0), b)]
\* a group with one of its characters many times
RECURSIVE Times0(_, _)
Times0(w, m) == IF m = 0 THEN "" ELSE w \o Times0(w, m - 1)
Stretched(g) == FlattenSeqs([i \in 1..Len(g) |-> [m \in 1..5 |-> Put(g, i, Times0(Char(g, i), <<1, 2, 3, 4, 7>>[m]))]])
\* a group with all (most = TRUE) or none of the parts that may be absent
RECURSIVE Template(_, _, _)
Template(P, k, most) == IF k > Len(P) THEN "" ELSE (IF P[k].opt /\ ~most THEN "" ELSE Pick(P[k].a, k)) \o Template(P, k + 1, most)
\* a group with slashes where it may have them
RECURSIVE Unknowns(_, _)
Unknowns(P, k) == IF k > Len(P) THEN ""
                  ELSE LET un == {x \in P[k].a : Has(x, "/")} IN Pick(IF un = {} THEN P[k].a ELSE un, k) \o Unknowns(P, k + 1)
\* SIZE = 0: one part and the full templates; else every part and both
AllForms == FlattenSeqs([i \in 1..Cardinality(Kinds) |-> LET k == SetToSeq(Kinds)[i] IN [a \in 1..Len(Pat[k]) |-> [k |-> k, a |-> a]]])
AllDepartCases ==
  FlattenSeqs([f \in 1..Len(AllForms) |->
    LET k == AllForms[f].k
        P == Pat[k][AllForms[f].a]
        ps == IF SIZE = 0 THEN <<OneOf(PartsWith(k), f)>> ELSE PartsWith(k)
    IN  IF f % SHARDS # SHARD THEN <<>>
        ELSE FlattenSeqs([j \in 1..Len(ps) |->
               Packed(ps[j], k, LET g == NonEmpty(Template(P, 1, TRUE)) IN AllDepartures(g) \o Stretched(g))
               \o Packed(ps[j], k, Stretched(NonEmpty(Unknowns(P, 1))))
               \o (IF SIZE = 0 THEN <<>> ELSE Packed(ps[j], k, AllDepartures(NonEmpty(Template(P, 1, FALSE)))))])])

(* Family "pump": groups with a stretch of one to three characters so often  *)
(* that a search that tries every way to divide it does not end.             *)
Pumped(g) ==
  FlattenSeqs([i \in 1..Len(g) |->
    FlattenSeqs([w \in 1..(IF Len(g) - i + 1 < 3 THEN Len(g) - i + 1 ELSE 3) |->
      LET m == Times0(SubSeq(g, i, i + w - 1), 60 \div w)
      IN  <<SubSeq(g, 1, i - 1) \o m \o "%", SubSeq(g, 1, i - 1) \o m \o SubSeq(g, i, Len(g)) \o OneOf(<<"/", "9", "A", "x", "+">>, i)>>])])
PumpCases ==
  FlattenSeqs([f \in 1..Len(AllForms) |->
    LET k == AllForms[f].k
        P == Pat[k][AllForms[f].a]
        ps == IF SIZE = 0 THEN <<OneOf(PartsWith(k), f)>> ELSE PartsWith(k)
    IN  IF f % SHARDS # SHARD THEN <<>>
        ELSE FlattenSeqs([j \in 1..Len(ps) |-> Packed(ps[j], k, Pumped(NonEmpty(Template(P, 1, TRUE)))) \o Packed(ps[j], k, Pumped(NonEmpty(Unknowns(P, 1))))])])

---------------------------------------------------------------------------
(* Family "reports": whole reports, in order or perturbed.                   *)
Junk == <<"XXX", "9", "12345", "/", "//////////", "QQQQQ", "ABC123", "0", "wind", "$", "AO2", "RE", "WS", "R", "RWY", "P6", "1/2", "SM", "TS/", "KT", "Z", "ZZZZZ",
          "INVALID", "3/4SM", "1 3/4SM", "CAVOK", "NIL", "CNL", "NOSIG", "T", "FM", "TL", "M", "PROB", "PROB30", "PROB40", "AT1830", "TL1900", "FM1900", "COR", "AMD">>
\* one random change of a sequence of groups
Perturb(ws, n) ==
  IF ws = <<>> THEN <<OneOf(Junk, n)>>
  ELSE LET i == Pick(1..Len(ws), n)  j == Pick(1..Len(ws), n) IN
  CASE Chance(25, n) -> SubSeq(ws, 1, i) \o <<OneOf(Junk, n)>> \o SubSeq(ws, i + 1, Len(ws))
    [] Chance(25, n) -> SubSeq(ws, 1, i) \o <<AnyGroup(Pick(Kinds, n), n)>> \o SubSeq(ws, i + 1, Len(ws))
    [] Chance(25, n) -> [ws EXCEPT ![i] = ws[j], ![j] = ws[i]]
    [] Chance(30, n) -> SubSeq(ws, 1, i) \o <<ws[j]>> \o SubSeq(ws, i + 1, Len(ws))
    [] Chance(50, n) -> SubSeq(ws, 1, i - 1) \o SubSeq(ws, i + 1, Len(ws))
    [] OTHER -> [ws EXCEPT ![i] = Depart(ws[i], n)]
RECURSIVE Perturbed(_, _)
Perturbed(ws, times) == IF times = 0 THEN ws ELSE Perturbed(Perturb(ws, times), times - 1)

Density(n) == Pick({15, 35, 60, 90}, n)
Trends(n) == LET ind(w) == <<w>> \o Tail(Whole("trend", Density(n))) IN
             CASE Chance(35, n) -> <<>>
               [] Chance(20, n) -> <<"NOSIG">>
               [] Chance(55, n) -> ind(OneOf(<<"TEMPO", "BECMG">>, n))
               [] Chance(50, n) -> ind("TEMPO") \o ind("BECMG")
               [] OTHER         -> ind("BECMG") \o ind("TEMPO")
\* words as remarks have them, and words that read as groups of other parts
RemarkWords == <<"AO1", "AO2", "SLP134", "SLP998", "T01230045", "T10230045", "PK", "WND", "28045/15", "P0003", "60003", "10234", "401120084", "52006", "WSHFT", "30",
                 "FROPA", "PRESFR", "PRESRR", "VIS", "1/2V2", "CIG", "005V010", "RAB05E30", "LTG", "DSNT", "W", "CB", "OHD", "MOV", "E", "TSNO", "PWINO", "RVRNO", "$",
                 "VEL", "MAX", "9999", "RA", "0800", "BKN001", "BKN010", "XX", "Q1013", "A2992", "CAVOK", "NIL", "COR", "AUTO", "NSW", "09010KT", "12/10", "M01/M02", "A3000",
                 "VRB", "QFE", "SC3", "AC2", "CI1", "SNOCLO", "R24/CLRD70", "WS", "R10", "ALL", "RWY", "BLU", "WHT", "GRN", "YLO", "AMB", "RED", "BIRD", "HAZARD", "tempo", "becmg", "rmk", "Runway", "fog", "LAST", "NEXT">>
RemarkWordOf(i) == CASE Chance(75, i) -> OneOf(RemarkWords, i) [] OTHER -> AnyGroup(Pick(Kinds \ {"trendind", "changeind"}, i), i)
Remark(n) == IF Chance(25, n) THEN <<"RMK">> \o [i \in 1..Pick(0..6, n) |-> IF Chance(6, i) THEN "TEMPO" ELSE RemarkWordOf(i)] ELSE <<>>
RECURSIVE Changes(_)
Changes(m) == IF m = 0 THEN <<>> ELSE Whole("change", Density(m)) \o Changes(m - 1)

ReportCase(kd, n) ==
  LET times == Pick({0, 0, 1, 2, 4}, n)
      ws == IF kd = "METAR"
            THEN Perturbed(Whole("metar", Density(n)), times) \o (LET t == Trends(n) IN IF t = <<>> THEN t ELSE <<t[1]>> \o Perturbed(Tail(t), Pick({0, 0, 1}, n))) \o Remark(n)
            ELSE Perturbed(Whole("taf", Density(n)), times) \o Perturbed(Changes(Pick(0..3, n)), Pick({0, 0, 1}, n))
  IN  Case(kd, Join(ws, " "), n)
ReportCases == [n \in 1..SIZE |-> ReportCase(IF n % 2 = 0 THEN "METAR" ELSE "TAF", n)]

---------------------------------------------------------------------------
(* Family "scan": groups of one part in no order, repeated, in any number.   *)
KindsIn(part) == {Table[part][i] : i \in 1..Len(Table[part])}
Lead(part) == CASE part = "metar" -> <<>> [] part = "taf" -> <<>>
                [] part = "trend" -> <<OneOf(<<"TEMPO", "BECMG", "NOSIG">>, 0)>> [] OTHER -> <<AnyGroup("changeind", 0)>>
ScanCase(part, n) ==
  LET ks == KindsIn(part)
      some == IF Chance(50, n) THEN RandomSubset(Pick(1..3, n), ks) ELSE ks
      gs == [i \in 1..Pick(1..9, n) |-> IF Chance(8, i) THEN OneOf(Junk, i) ELSE AnyGroup(Pick(some, i), i)]
  IN  CaseIn(part, Lead(part) \o gs, n)
ScanCases == [n \in 1..SIZE |-> ScanCase(OneOf(<<"metar", "trend", "taf", "change">>, n), n)]

---------------------------------------------------------------------------
(* Family "derived": ceilings, flight rules and CAVOK around their limits.   *)
VisCodes == <<"", "", "0000", "0050", "0700", "0799", "0800", "0801", "1500", "1599", "1600", "1601", "3000", "4999", "5000", "5001", "7999", "8000", "8001",
              "9000", "9998", "9999", "CAVOK", "////", "1/4SM", "1/2SM", "M1/4SM", "3/4SM", "1SM", "1 1/2SM", "2SM", "3SM", "3 1/8SM", "4SM", "5SM", "6SM", "P6SM",
              "10SM", "12SM", "15SM", "20SM", "99SM", "0KM", "1KM", "5KM", "7KM", "8KM", "9KM", "10KM", "19KM", "20KM", "21KM", "50KM", "9999NE", "0500S", "10M", "10U">>
TafVis(c) == c # "////"
Heights == <<"", "", "///", "000", "001", "002", "003", "004", "005", "006", "009", "010", "011", "014", "015", "016", "020", "029", "030", "031", "048", "049", "050", "051",
             "060", "100", "250", "999">>
CloudCode(n) ==
  CASE Chance(10, n) -> OneOf(<<"SKC", "CLR", "NSC", "NCD", "//////", "/////////", "VV", "VV///", "VV000">>, n)
    [] OTHER -> OneOf(<<"FEW", "SCT", "BKN", "OVC", "BKN", "OVC", "VV", "0VC", "///", "NSC", "SKC", "CLR", "NCD">>, n) \o OneOf(Heights, n)
                \o OneOf(<<"", "", "", "", "", "CB", "TCU", "///">>, n)
\* skies around CAVOK
ClearCloud(n) == OneOf(<<"FEW", "SCT", "BKN", "OVC", "FEW", "SCT">>, n) \o (IF Chance(75, n) THEN OneOf(<<"050", "051", "055", "060", "100", "250", "999">>, n) ELSE OneOf(<<"049", "048", "040", "///">>, n))
                 \o OneOf(<<"", "", "TCU", "CB", "///", "">>, n)
ClearWords(n) == <<OneOf(<<"9999", "9999", "10SM", "20KM", "7SM", "P6SM", "CAVOK", "9999NDV", "15KM">>, n)>> \o (IF Chance(10, n) THEN <<OneOf(<<"NSW", "VCSH", "BR", "-">>, n)>> ELSE <<>>)
                 \o (IF Chance(5, n) THEN <<OneOf(<<"NSC", "SKC", "NCD", "CLR">>, n)>> ELSE [i \in 1..Pick(1..4, n) |-> ClearCloud(i)])
DerivedWords(n) ==
  IF Chance(25, n) THEN ClearWords(n) ELSE
  LET v == OneOf(VisCodes, n)
      w == OneOf(<<"", "", "", "", "", "RA", "+TSRA", "NSW", "BR", "VC", "-">>, n)
      cs == [i \in 1..Pick({0, 1, 1, 2, 2, 3, 4, 5}, n) |-> CloudCode(i)]
  IN  (IF v = "" THEN <<>> ELSE <<v>>) \o (IF w = "" THEN <<>> ELSE <<w>>) \o cs
DerivedLead(part, n) == CASE part = "metar" -> Short("METAR") [] part = "taf" -> Short("TAF")
                       [] part = "trend" -> <<"TEMPO">> [] OTHER -> <<OneOf(<<"TEMPO", "BECMG", "FM072000", "PROB30 TEMPO">>, n)>>
DerivedCase(n) ==
  LET part == OneOf(<<"metar", "metar", "trend", "taf", "change">>, n)
      ws == DerivedLead(part, n) \o DerivedWords(n)
  IN  IF part = "metar" /\ Chance(40, n) THEN Case("METAR", Join(ws \o <<"TEMPO">> \o DerivedWords(n), " "), n)
      ELSE IF part = "taf" /\ Chance(40, n) THEN Case("TAF", Join(ws \o <<"BECMG">> \o DerivedWords(n) \o <<"PROB40">> \o DerivedWords(n), " "), n)
      ELSE CaseIn(part, ws, n)
DerivedCases == [n \in 1..SIZE |-> DerivedCase(n)]

\* every visibility with every single layer, in turn over the parts
GridClouds == LET cs == {c \o h \o t : c \in {"FEW", "SCT", "BKN", "OVC", "VV", "///", "NSC", "SKC", "0VC"}, h \in ToSet(Heights), t \in {"", "CB", "TCU"}} IN SetToSeq(cs \cup {""})
GridCases ==
  LET nv == Len(VisCodes) - 1
      gc == GridClouds
      parts == <<"metar", "trend", "taf", "change">>
      mine == SetToSeq({i \in 0..(nv * Len(gc) - 1) : i % SHARDS = SHARD /\ (i \div SHARDS) % SIZE = 0})
  IN  [m \in 1..Len(mine) |->
        LET i == mine[m]
            part == parts[((i \div SHARDS) % 4) + 1]
        IN  CaseIn(part, SelectSeq(DerivedLead(part, i) \o <<VisCodes[(i % nv) + 2], gc[(i \div nv) + 1]>>, LAMBDA w : w # ""), i)]

---------------------------------------------------------------------------
(* Family "sections": keyword structure.                                     *)
Keywords == <<"NOSIG", "TEMPO", "BECMG", "RMK", "TEMPO", "BECMG">>
TafKeywords == <<"FM071900", "TEMPO", "BECMG", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO", "FM", "PROB", "PROB50", "TEMPOX", "BECMGS", "FMMI">>
Plain == <<"RA", "9999", "BKN010", "XX", "KJFK", "071830Z", "09010KT", "RMKS", "NOSIGX", "XTEMPO", "ABECMG", "FOO", "NOTEMPO", "TEMPO1", "RMKTEMPO", "AFM", "XPROB", "AMD", "TAF", "METAR",
           "FMX", "|", "a|b", "1 1/2SM", "WS R07", "0718/0720", "FM1900", "TL1930", "/", "-", "x">>
Keyword(kd, n) == IF kd = "METAR" THEN OneOf(Keywords, n) ELSE OneOf(TafKeywords, n)
SectionWord(kd, n) == CASE Chance(35, n) -> Keyword(kd, n) [] Chance(8, n) -> (IF Chance(60, n) THEN Lowered(Keyword(kd, n)) ELSE Titled(Keyword(kd, n))) [] OTHER -> OneOf(Plain, n)
SectionHeads(kd) == IF kd = "METAR" THEN <<"METAR SKBO 071830Z", "SKBO 071830Z", "", "SPECI">>
                    ELSE <<"TAF SKBO 071700Z", "TAF AMD FMMI 071700Z", "TAF COR SKBO", "FMMI 071700Z", "TAF FMMI", "AMD FMMI", "COR FMEE 071700Z", "", "TAF", "TAF AMD", "TAF TAF FMMI", "AMD COR FMMI">>
SectionCase(kd, n) ==
  LET ws == [i \in 1..Pick(0..10, n) |-> SectionWord(kd, i)]
      h == OneOf(SectionHeads(kd), n)
      t == Join((IF h = "" THEN <<>> ELSE <<h>>) \o ws, " ")
  IN  Case(kd, IF t = "" THEN OneOf(Plain, n) ELSE t, n)
SectionCases == [n \in 1..SIZE |-> SectionCase(IF n % 2 = 0 THEN "METAR" ELSE "TAF", n)]

---------------------------------------------------------------------------
(* Instants.                                                                 *)
G4(d, h) == Pad(d, 2) \o Pad(h, 2)
TimeGroup(t) == Pad(DayOfMonth(t), 2) \o Pad(HourOf(t), 2) \o Pad(MinuteOf(t), 2) \o "Z"
YearMonth(t) == Date(t \div Day)
CaseAt(kd, text, t) == [kind |-> kd, text |-> text, y |-> YearMonth(t).y, mo |-> YearMonth(t).m]

\* an instant, often near the end of a day, a month or a year
Instant(n) ==
  LET y == Pick({1999, 2000, 2016, 2019, 2020, 2023, 2024, 2100} \cup (2000..2040), n)
      m == Pick({1, 2, 2, 12} \cup (1..12), n)
      d == IF Chance(50, n) THEN Pick({1, DaysIn(y, m) - 1, DaysIn(y, m)}, n) ELSE Pick(1..DaysIn(y, m), n)
      h == IF Chance(50, n) THEN Pick({0, 21, 22, 23}, n) ELSE Pick(0..23, n)
      mi == IF Chance(40, n) THEN Pick({0, 1, 29, 30, 59}, n) ELSE Pick(0..59, n)
  IN  At(y, m, d, h, mi)

\* an hour and minute group that falls off minutes after t (2400 for midnight now and then)
HHMM(t, off, n) == LET u == t + off IN
                   IF u % Day = 0 /\ Chance(60, n) THEN "2400" ELSE Pad(HourOf(u), 2) \o Pad(MinuteOf(u), 2)

TrendPeriod(t, n) ==
  LET a == Pick({0, 1, 30, 59, 60, 61, 119, 120} \cup (0..120), n)
      b == Pick({0, 1, 30, 59, 60, 61, 119, 120} \cup (0..120), n)
      toMid == Day - (t % Day)
      c == IF toMid <= 120 /\ Chance(50, n) THEN toMid ELSE a
      d == IF toMid <= 120 /\ Chance(30, n) THEN toMid ELSE b
  IN  CASE Chance(20, n) -> <<"FM" \o HHMM(t, c, n)>>
        [] Chance(25, n) -> <<"TL" \o HHMM(t, c, n)>>
        [] Chance(25, n) -> <<"AT" \o HHMM(t, c, n)>>
        [] Chance(60, n) -> <<"FM" \o HHMM(t, Min({c, d}), n), "TL" \o HHMM(t, Max({c, d}), n)>>
        [] Chance(40, n) -> <<"TL" \o HHMM(t, d, n), "FM" \o HHMM(t, c, n)>>
        [] Chance(30, n) -> <<"FM" \o HHMM(t, c, n), "FM" \o HHMM(t, d, n)>>
        [] Chance(30, n) -> <<"AT" \o HHMM(t, c, n), "TL" \o HHMM(t, d, n)>>
        [] OTHER -> <<>>
TrendClockCase(n) ==
  LET t == Instant(n)
      one(w, k) == <<w>> \o TrendPeriod(t, k) \o (IF Chance(50, k) THEN <<"RA">> ELSE <<"9999", "BKN010">>)
      ws == CASE Chance(10, n) -> <<"NOSIG">>
              [] Chance(45, n) -> one(OneOf(<<"TEMPO", "BECMG">>, n), 1)
              [] Chance(50, n) -> one("TEMPO", 1) \o one("BECMG", 2)
              [] OTHER -> one("BECMG", 1) \o one("TEMPO", 2)
      head == CASE Chance(80, n) -> <<"METAR", "SKBO", TimeGroup(t)>> [] OTHER -> <<"SPECI", "KJFK", TimeGroup(t), "09010KT", "CAVOK", "20/10", "Q1013">>
  IN  CaseAt("METAR", Join(head \o ws \o (IF Chance(15, n) THEN <<"RMK", "FM0100", "TEMPO">> ELSE <<>>), " "), t)
TrendClockCases == [n \in 1..SIZE |-> TrendClockCase(n)]

\* dd24 rather than the next day's 00 now and then
DayHour(u, until, n) == IF until /\ u % Day = 0 /\ Chance(60, n) THEN G4(DayOfMonth(u - Day), 24) ELSE G4(DayOfMonth(u), HourOf(u))
HourFloor(t) == t - (t % 60)
ValidityAt(t, n) ==
  LET from == HourFloor(t) + 60 * Pick({0, 1, 2, 6, 12, 23, 24, 25, 30, 36, 47, 48} \cup (0..48), n)
      cap == MidnightOf(t) + 3 * Day - 60
      f == IF from > cap THEN cap ELSE from
      len == 60 * Pick({1, 6, 9, 12, 24, 30, 36} \cup (1..36), n)
  IN  [from |-> f, until |-> f + len]
ValidCode(v, n) == DayHour(v.from, FALSE, n) \o "/" \o DayHour(v.until, TRUE, n)
TafHead(t, v, n) == <<"TAF">> \o (IF Chance(15, n) THEN <<OneOf(<<"AMD", "COR">>, n)>> ELSE <<>>) \o <<OneOf(<<"SKBO", "FMMI", "KJFK">>, n), TimeGroup(t), ValidCode(v, n)>>

ValidCase(n) == LET t == Instant(n)  v == ValidityAt(t, n) IN
                CaseAt("TAF", Join(TafHead(t, v, n) \o <<"09010KT", "CAVOK">> \o (IF Chance(30, n) THEN <<"TEMPO", "3000">> ELSE <<>>), " "), t)
ValidCases == [n \in 1..SIZE |-> ValidCase(n)]

\* a period within a validity
Within(v, n) == LET k == (v.until - v.from) \div 60
                    a == Pick(0..(k - 1), n)
                    b == Pick((a + 1)..k, n)
                IN  [from |-> v.from + 60 * a, until |-> v.from + 60 * b]
FMCode(u) == "FM" \o Pad(DayOfMonth(u), 2) \o Pad(HourOf(u), 2) \o Pad(MinuteOf(u), 2)
Bits(n) == OneOf(<< <<>>, <<"RA">>, <<"VRB05KT">>, <<"3000", "-RA", "BKN010">>, <<"09015G25KT", "P6SM", "OVC020">>, <<"CAVOK">>, <<"XX">> >>, n)
ChangeCase(n) ==
  LET t == Instant(n)  v == ValidityAt(t, n)
      one(k) == LET w == Within(v, k) IN
                CASE Chance(25, k) -> <<FMCode(w.from + (IF w.from + 60 <= v.until THEN Pick(0..59, k) ELSE 0))>> \o Bits(k)
                  [] Chance(85, k) -> <<OneOf(<<"TEMPO", "BECMG", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO">>, k), ValidCode(w, k)>> \o Bits(k)
                  [] OTHER -> <<OneOf(<<"TEMPO", "BECMG", "PROB30", "PROB40 TEMPO">>, k)>> \o Bits(k)
      m == Pick(1..3, n)
  IN  CaseAt("TAF", Join(TafHead(t, v, n) \o <<"09010KT", "CAVOK">> \o FlattenSeqs([k \in 1..m |-> one(k)]), " "), t)
ChangeCases == [n \in 1..SIZE |-> ChangeCase(n)]

RECURSIVE Chain(_, _, _, _)
\* m changes with increasing times from u on, until the end of validity v
Chain(v, u, m, n) ==
  IF m = 0 \/ u + 120 > v.until THEN <<>>
  ELSE LET hh == HourFloor(u + 59)
           away == u + Pick({0, 10, 30, 59, 60, 90, 180}, m)
           fm == IF away <= v.until - 60 THEN away ELSE u
           w0 == [from |-> hh, until |-> IF hh + 120 <= v.until THEN hh + 60 * Pick(1..2, m) ELSE hh + 60]
           k == OneOf(<<"FM", "FM", "BECMG", "TEMPO", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO">>, m)
           \* a passing change may be written before or after changes that start earlier or later
           w == IF k \notin {"FM", "BECMG"} /\ Chance(30, m) THEN Within(v, m) ELSE w0
       IN  IF k = "FM" THEN <<FMCode(fm)>> \o Bits(m) \o Chain(v, HourFloor(fm) + 120, m - 1, n)
           ELSE <<k, ValidCode(w, m)>> \o Bits(m) \o Chain(v, w0.from + 60 * Pick(0..3, m), m - 1, n)
ChainCase(n) ==
  LET t == Instant(n)
      v == [from |-> HourFloor(t) + 60, until |-> HourFloor(t) + 60 + 60 * Pick({9, 24, 30, 36}, n)]
  IN  CaseAt("TAF", Join(TafHead(t, v, n) \o <<"09010KT", "CAVOK">> \o Chain(v, v.from + 60 * Pick(0..2, n), Pick(2..8, n), n), " "), t)
ChainCases == [n \in 1..SIZE |-> ChainCase(n)]

TempAt(t, n) == LET u == HourFloor(t) + 60 * Pick({0, 1, 12, 23, 24, 25, 47, 48, 60} \cup (0..60), n) IN
                "T" \o OneOf(<<"X", "N">>, n) \o OneOf(<<"", "M">>, n) \o Pad(Pick(0..99, n), 2) \o "/" \o G4(DayOfMonth(u), HourOf(u)) \o "Z"
TempCase(n) == LET t == Instant(n)  v == ValidityAt(t, n) IN
               CaseAt("TAF", Join(TafHead(t, v, n) \o <<"09010KT", "CAVOK">> \o [k \in 1..Pick({1, 2, 2, 3, 4, 5}, n) |-> TempAt(t, k)]
                                  \o (IF Chance(30, n) THEN <<"TEMPO", "3000", TempAt(t, n)>> ELSE <<>>), " "), t)
TempCases == [n \in 1..SIZE |-> TempCase(n)]

TimeCase(n) ==
  LET t == Instant(n)
      kd == IF n % 2 = 0 THEN "METAR" ELSE "TAF"
      ws == <<kd, OneOf(<<"SKBO", "FMMI", "XXXX">>, n)>>
      rest == IF kd = "METAR" THEN <<"09010KT", "CAVOK", "20/10", "Q1013">> ELSE <<ValidCode(ValidityAt(t, n), n), "09010KT", "CAVOK", "TEMPO", "RA">>
  IN  CASE Chance(80, n) -> CaseAt(kd, Join(ws \o <<TimeGroup(t)>> \o rest, " "), t)
        [] Chance(50, n) -> CaseAt(kd, Join(ws \o rest, " "), t)
        [] Chance(50, n) -> CaseAt(kd, Join(ws \o <<TimeGroup(t), TimeGroup(MidnightOf(t))>> \o rest, " "), t)
        [] OTHER -> CaseAt(kd, Join(<<TimeGroup(t)>> \o rest, " "), t)
TimeCases == [n \in 1..SIZE |-> TimeCase(n)]

---------------------------------------------------------------------------
(* Family "wild": any printable characters, keywords in any number.          *)
Ascii == Ascii0 \o <<" ", "\t", "\n">>
RECURSIVE Wild(_)
Wild(m) == IF m = 0 THEN "" ELSE OneOf(Ascii, m) \o Wild(m - 1)
WildWord(n) == CASE Chance(30, n) -> AnyGroup(Pick(Kinds, n), n)
                 [] Chance(30, n) -> Depart(AnyGroup(Pick(Kinds, n), n), n)
                 [] Chance(30, n) -> OneOf(Junk, n)
                 [] Chance(50, n) -> OneOf(TafKeywords \o Keywords, n)
                 [] OTHER -> LET w == Wild(Pick(1..12, n)) IN IF Words(w) = <<>> THEN "x" ELSE w
WildCase(n) ==
  LET kd == IF n % 2 = 0 THEN "METAR" ELSE "TAF"
      ws == [i \in 1..Pick(1..20, n) |-> WildWord(i)]
      t == Join((IF Chance(50, n) THEN Short(kd) ELSE <<>>) \o ws, " ")
  IN  Case(kd, IF RawWords(t) = <<>> THEN "x" ELSE t, n)
WildCases == [n \in 1..SIZE |-> WildCase(n)]

(* Family "long": texts of many groups, and of groups of many characters.    *)
LongWord(n) ==
  LET unit == CASE Chance(30, n) -> OneOf(Ascii, n)
                [] Chance(40, n) -> Pick(Digit, n)
                [] Chance(40, n) -> Pick(Upper, n)
                [] Chance(50, n) -> AnyGroup(Pick(Kinds, n), n)
                [] OTHER -> OneOf(Junk, n)
      u == NoUnderscore(Join(Words(unit), ""))
      v == IF u = "" THEN "9" ELSE u
      m == Pick({2, 3, 5, 9, 17, 40, 80}, n) \div Len(v) + 1
  IN  (IF Chance(30, n) THEN AnyGroup(Pick({"type", "wind", "rvr", "cloud", "weather", "temps", "valid"}, n), n) ELSE "") \o Times0(v, m)
      \o (IF Chance(40, n) THEN OneOf(Junk, n) ELSE IF Chance(30, n) THEN OneOf(Ascii, n) ELSE "")
LongCase(n) ==
  LET kd == IF n % 2 = 0 THEN "METAR" ELSE "TAF"
      m == Pick({1, 2, 5, 12, 25, 60}, n)
      crowd == Pick({0, 20, 100}, n)
      one == OneOf(Junk, n)
      junk == [i \in 1..m |-> IF Chance(crowd, i) THEN LongWord(i) ELSE IF Chance(30, i) THEN one ELSE IF Chance(40, i) THEN OneOf(Junk, i) ELSE AnyGroup(Pick(Kinds, i), i)]
      ws == IF kd = "METAR" THEN Whole("metar", Density(n)) \o junk \o Trends(n) \o Remark(n) ELSE Whole("taf", Density(n)) \o junk \o Changes(Pick(0..3, n))
  IN  Case(kd, Join(ws, " "), n)
LongCases == [n \in 1..SIZE |-> LongCase(n)]

\* more trends, changes and temperatures than a report can hold, and just as many
FullCase(n) ==
  LET m == Pick({7, 8, 9, 10, 12}, n) IN
  CASE n % 3 = 0 -> Case("TAF", Join(Short("TAF") \o FlattenSeqs([k \in 1..m |-> <<OneOf(TafKeywords, k)>> \o Bits(k)]), " "), n)
    [] n % 3 = 1 -> Case("TAF", Join(Short("TAF") \o [k \in 1..Pick(3..6, n) |-> AnyGroup("taftemp", k)] \o <<"TEMPO", "RA">>, " "), n)
    [] OTHER     -> Case("METAR", Join(Short("METAR") \o FlattenSeqs([k \in 1..Pick(2..4, n) |-> <<OneOf(Keywords, k)>> \o Bits(k)]), " "), n)
FullCases == [n \in 1..SIZE |-> FullCase(n)]

---------------------------------------------------------------------------
(* Family "small": every sequence of at most SIZE groups of an alphabet with *)
(* a group or two of every kind a part knows.                                *)
Alphabet(part) ==
  CASE part = "metar"  -> <<"METAR", "SKBO", "071830Z", "COR", "09010KT", "070V130", "3000", "R07/1000", "RA", "BKN010", "20/10", "Q1013", "RETS", "WS R07", "W15/S4", "R07/293055", "XX">>
    [] part = "trend"  -> <<"TEMPO", "FM1900", "TL1930", "09010KT", "3000", "RA", "BKN010", "BECMG", "NOSIG", "XX">>
    [] part = "taf"    -> <<"TAF", "AMD", "SKBO", "071700Z", "NIL", "0718/0818", "CNL", "09010KT", "3000", "RA", "BKN010", "TX20/0718Z", "TNM01/0806Z", "XX">>
    [] part = "change" -> <<"TEMPO", "0719/0721", "09010KT", "3000", "RA", "BKN010", "BECMG", "FM072000", "PROB30", "XX">>
SmallLead(part) == CASE part \in {"metar", "taf"} -> <<>> [] part = "trend" -> <<"METAR", "SKBO", "071830Z">> [] OTHER -> <<"TAF", "SKBO", "071700Z", "0718/0818">>
RECURSIVE Power(_, _)
Power(a, b) == IF b = 0 THEN 1 ELSE a * Power(a, b - 1)
SmallSeq(al, len, c) == [k \in 1..len |-> al[((c \div Power(Len(al), k - 1)) % Len(al)) + 1]]
SmallPart(part, len) ==
  LET al == Alphabet(part)
      mine == SetToSeq({c \in 0..(Power(Len(al), len) - 1) : c % SHARDS = SHARD})
  IN  [m \in 1..Len(mine) |-> [kind |-> KindOfPart(part), text |-> Join(SmallLead(part) \o SmallSeq(al, len, mine[m]), " "), y |-> 2020, mo |-> 7]]
RECURSIVE SmallUpTo(_, _)
SmallUpTo(part, len) == IF len = 0 THEN <<>> ELSE SmallPart(part, len) \o SmallUpTo(part, len - 1)
SmallCases == SmallUpTo("metar", SIZE) \o SmallUpTo("trend", SIZE) \o SmallUpTo("taf", SIZE) \o SmallUpTo("change", SIZE)

=============================================================================
