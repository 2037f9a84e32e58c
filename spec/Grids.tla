-------------------------------- MODULE Grids -------------------------------
(* Enumerated regions of the input space, without chance: instants around    *)
(* the ends of days, months and years, every sequence of change indicators,  *)
(* of temperatures, of header words.  SIZE 0 takes the edges, SIZE 1 all.    *)
EXTENDS Families

Deep == SIZE # 0
\* the sequence of the combinations with numbers c (0-based, c % SHARDS = SHARD), one in every `stride`
Mine(total, stride) == SetToSortSeq({c \in 0..(total - 1) : c % SHARDS = SHARD /\ (c \div SHARDS) % stride = 0}, LAMBDA a, b : a < b)
\* the k-th digit of c in the mixed radix of the lengths of the sequences q
RECURSIVE Below(_, _)
Below(q, k) == IF k = 0 THEN 1 ELSE Len(q[k]) * Below(q, k - 1)
Digit0(q, c, k) == q[k][((c \div Below(q, k - 1)) % Len(q[k])) + 1]
Total(q) == Below(q, Len(q))

Days == << <<2023, 1, 31>>, <<2024, 2, 29>>, <<2023, 2, 28>>, <<2023, 4, 30>>, <<2023, 12, 31>>, <<2024, 2, 28>>, <<2023, 7, 15>>, <<2024, 1, 1>>, <<1999, 12, 30>>, <<2100, 2, 28>> >>
AtDay(x, h, mi) == At(x[1], x[2], x[3], h, mi)
From(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
HM(u, late) == IF late /\ u % Day = 0 THEN "2400" ELSE Pad(HourOf(u), 2) \o Pad(MinuteOf(u), 2)
DH(u, late) == IF late /\ u % Day = 0 THEN G4(DayOfMonth(u - Day), 24) ELSE G4(DayOfMonth(u), HourOf(u))

---------------------------------------------------------------------------
\* a report time, a moment in its two hours, a prefix
TrendOne ==
  LET q == <<Days, IF Deep THEN From(0, 23) ELSE <<0, 12, 21, 22, 23>>, IF Deep THEN <<0, 1, 29, 30, 59>> ELSE <<0, 30, 59>>,
             IF Deep THEN From(0, 120) ELSE <<0, 1, 30, 31, 59, 60, 61, 90, 119, 120>>, <<"FM", "TL", "AT">>, <<"TEMPO", "BECMG">>>>
      m == Mine(Total(q), IF Deep THEN 7 ELSE 3)
  IN  [i \in 1..Len(m) |-> LET c == m[i]
                               t == AtDay(Digit0(q, c, 1), Digit0(q, c, 2), Digit0(q, c, 3))
                           IN  CaseAt("METAR", Join(<<"METAR", "SKBO", TimeGroup(t), Digit0(q, c, 6), Digit0(q, c, 5) \o HM(t + Digit0(q, c, 4), c % 2 = 0), "RA">>, " "), t)]
\* two moments, in one trend or in two
TrendTwo ==
  LET offs == IF Deep THEN <<0, 1, 15, 30, 59, 60, 61, 75, 90, 105, 119, 120>> ELSE <<0, 1, 60, 119, 120>>
      q == <<Days, IF Deep THEN <<0, 1, 11, 20, 21, 22, 23>> ELSE <<12, 22, 23>>, IF Deep THEN <<0, 15, 30, 59>> ELSE <<0, 30>>, offs, offs,
             <<"FM TL", "TL FM", "FM|FM", "TL|FM", "AT|TL", "FM|AT", "TL|TL", "AT|FM">>>>
      m == Mine(Total(q), IF Deep THEN 3 ELSE 7)
      text(f, a, b) == IF SubSeq(f, 3, 3) = " " THEN SubSeq(f, 1, 2) \o a \o " " \o SubSeq(f, 4, 5) \o b \o " RA"
                       ELSE SubSeq(f, 1, 2) \o a \o " RA TEMPO " \o SubSeq(f, 4, 5) \o b \o " BR"
  IN  [i \in 1..Len(m) |-> LET c == m[i]
                               t == AtDay(Digit0(q, c, 1), Digit0(q, c, 2), Digit0(q, c, 3))
                           IN  CaseAt("METAR", Join(<<"METAR", "SKBO", TimeGroup(t), "BECMG",
                                                      text(Digit0(q, c, 6), HM(t + Digit0(q, c, 4), c % 2 = 0), HM(t + Digit0(q, c, 5), c % 3 = 0))>>, " "), t)]
TrendGrid == TrendOne \o TrendTwo

---------------------------------------------------------------------------
\* issue, start and length of validities
ValidSpan ==
  LET q == <<Days, IF Deep THEN From(0, 23) ELSE <<0, 11, 17, 23>>, <<0, 3>>, IF Deep THEN From(0, 48) ELSE <<0, 1, 7, 13, 23, 24, 25, 47, 48>>,
             IF Deep THEN From(1, 36) ELSE <<1, 6, 12, 24, 25, 30, 36>>>>
      m == Mine(Total(q), IF Deep THEN 11 ELSE 1)
  IN  [i \in 1..Len(m) |-> LET c == m[i]
                               t == AtDay(Digit0(q, c, 1), Digit0(q, c, 2), 40) - Digit0(q, c, 3) * Day
                               f == HourFloor(t) + 60 * Digit0(q, c, 4)
                               u == f + 60 * Digit0(q, c, 5)
                           IN  CaseAt("TAF", Join(<<"TAF", "SKBO", TimeGroup(t), DH(f, FALSE) \o "/" \o DH(u, c % 2 = 0), "09010KT">>, " "), t)]
\* any two days, whatever the day of issue
ValidAny ==
  LET q == <<Days, From(1, 31), From(1, 31), <<0, 12, 23>>, <<0, 12, 23, 24>>>>
      m == Mine(Total(q), IF Deep THEN 1 ELSE 41)
  IN  [i \in 1..Len(m) |-> LET c == m[i]
                               t == AtDay(Digit0(q, c, 1), 11, 0)
                           IN  CaseAt("TAF", Join(<<"TAF", "SKBO", TimeGroup(t), G4(Digit0(q, c, 2), Digit0(q, c, 4)) \o "/" \o G4(Digit0(q, c, 3), Digit0(q, c, 5))>>, " "), t)]
ValidGrid == ValidSpan \o ValidAny

---------------------------------------------------------------------------
\* one change with its period, in validities across the ends of months
Periodic == <<"TEMPO", "BECMG", "PROB30", "PROB40", "PROB30 TEMPO", "PROB40 TEMPO">>
ChangeSpan ==
  LET q == <<Days, <<0, 6, 18, 23>>, IF Deep THEN From(0, 35) ELSE <<0, 1, 5, 6, 12, 23, 24, 29>>, IF Deep THEN From(1, 36) ELSE <<1, 2, 6, 24>>, Periodic>>
      m == Mine(Total(q), IF Deep THEN 3 ELSE 2)
  IN  [i \in 1..Len(m) |-> LET c == m[i]
                               v == AtDay(Digit0(q, c, 1), Digit0(q, c, 2), 0)
                               t == v - 30
                               f == v + 60 * Digit0(q, c, 3)
                               u == f + 60 * Digit0(q, c, 4)
                           IN  CaseAt("TAF", Join(<<"TAF", "SKBO", TimeGroup(t), DH(v, FALSE) \o "/" \o DH(v + 36 * 60, c % 2 = 0), "09010KT",
                                                    Digit0(q, c, 5), DH(f, FALSE) \o "/" \o DH(u, c % 2 = 0), "RA">>, " "), t)]
ChangeFM ==
  LET q == <<Days, <<0, 6, 18, 23>>, IF Deep THEN From(0, 35) ELSE <<0, 1, 5, 6, 12, 23, 24, 29>>, IF Deep THEN From(0, 59) ELSE <<0, 1, 30, 59>>>>
      m == Mine(Total(q), 1)
  IN  [i \in 1..Len(m) |-> LET c == m[i]
                               v == AtDay(Digit0(q, c, 1), Digit0(q, c, 2), 0)
                               t == v - 30
                           IN  CaseAt("TAF", Join(<<"TAF", "SKBO", TimeGroup(t), DH(v, FALSE) \o "/" \o DH(v + 36 * 60, c % 2 = 0), "09010KT",
                                                    FMCode(v + 60 * Digit0(q, c, 3) + Digit0(q, c, 4)), "RA">>, " "), t)]
ChangeGrid == ChangeSpan \o ChangeFM

---------------------------------------------------------------------------
\* every sequence of changes up to a length, in order of time
Inds == <<"FM", "BECMG", "TEMPO", "PROB30", "PROB40 TEMPO">>
RECURSIVE InOrderOfTime(_, _, _)
InOrderOfTime(v, c, k) ==
  IF k = 0 THEN <<>>
  ELSE LET ind == Inds[(c % Len(Inds)) + 1]
           u == v + 120
       IN  (IF ind = "FM" THEN <<FMCode(u + 30), "09010KT">> ELSE <<ind, DH(u, FALSE) \o "/" \o DH(u + 60, TRUE), "RA">>)
           \o InOrderOfTime(u, c \div Len(Inds), k - 1)
ChainsOf(k, stride) ==
  LET m == Mine(Power(Len(Inds), k), stride)
  IN  [i \in 1..Len(m) |-> LET v == AtDay(Days[(m[i] % Len(Days)) + 1], (5 * m[i]) % 24, 0)  t == v - 60
                           IN  CaseAt("TAF", Join(<<"TAF", "SKBO", TimeGroup(t), DH(v, FALSE) \o "/" \o DH(v + 30 * 60, TRUE), "VRB02KT", "CAVOK">> \o InOrderOfTime(v, m[i], k), " "), t)]
ChainGrid == FlattenSeqs([k \in 1..8 |-> ChainsOf(k, IF k <= 4 THEN 1 ELSE IF k = 5 THEN (IF Deep THEN 1 ELSE 5)
                                                       ELSE IF Deep THEN (CASE k = 6 -> 2 [] k = 7 -> 11 [] OTHER -> 59) ELSE (CASE k = 6 -> 31 [] k = 7 -> 151 [] OTHER -> 757))])

---------------------------------------------------------------------------
\* every order of maxima and minima up to five, and every hour up to the third day
TempOrders(k) ==
  LET m == Mine(Power(2, k) * Len(Days), 1)
  IN  [i \in 1..Len(m) |-> LET t == AtDay(Days[(m[i] \div Power(2, k)) + 1], 11, 0)
                               one(j) == LET u == t + 60 * 7 * j IN
                                         (IF (m[i] \div Power(2, j - 1)) % 2 = 0 THEN "TX" ELSE "TN") \o (IF (j + m[i]) % 3 = 0 THEN "M" ELSE "") \o Pad((11 * j) % 100, 2)
                                         \o "/" \o G4(DayOfMonth(u), HourOf(u)) \o "Z"
                           IN  CaseAt("TAF", Join(<<"TAF", "SKBO", TimeGroup(t), DH(t + 60, FALSE) \o "/" \o DH(t + 31 * 60, TRUE), "09010KT">> \o [j \in 1..k |-> one(j)], " "), t)]
TempHours ==
  LET q == <<Days, IF Deep THEN From(0, 23) ELSE <<0, 11, 23>>, IF Deep THEN From(0, 71) ELSE <<0, 1, 6, 12, 23, 24, 25, 36, 47, 48, 60, 71>>, <<"TX", "TN">>, <<0, 1>>>>
      m == Mine(Total(q), 1)
  IN  [i \in 1..Len(m) |-> LET c == m[i]
                               t == AtDay(Digit0(q, c, 1), Digit0(q, c, 2), 30) - Digit0(q, c, 5) * Day
                               u == MidnightOf(t) + 60 * Digit0(q, c, 3)
                           IN  CaseAt("TAF", Join(<<"TAF", "SKBO", TimeGroup(t), DH(HourFloor(t) + 60, FALSE) \o "/" \o DH(HourFloor(t) + 31 * 60, TRUE), "09010KT",
                                                    Digit0(q, c, 4) \o "15/" \o G4(DayOfMonth(u), HourOf(u)) \o "Z">>, " "), t)]
TempGrid == TempOrders(1) \o TempOrders(2) \o TempOrders(3) \o TempOrders(4) \o TempOrders(5) \o TempHours

---------------------------------------------------------------------------
\* every day of a leap year and of a common one, at the edges of the hours
TimeGrid ==
  LET q == <<<<"METAR", "TAF">>, <<2023, 2024, 2000, 1900>>, From(1, 12), From(1, 31), IF Deep THEN From(0, 23) ELSE <<0, 9, 23>>, IF Deep THEN <<0, 1, 9, 10, 30, 59>> ELSE <<0, 30, 59>>>>
      m == SelectSeq(Mine(Total(q), IF Deep THEN 5 ELSE 4), LAMBDA c : Digit0(q, c, 4) <= DaysIn(Digit0(q, c, 2), Digit0(q, c, 3)))
  IN  [i \in 1..Len(m) |-> LET c == m[i]
                               t == At(Digit0(q, c, 2), Digit0(q, c, 3), Digit0(q, c, 4), Digit0(q, c, 5), Digit0(q, c, 6))
                           IN  CaseAt(Digit0(q, c, 1), Join(<<Digit0(q, c, 1), "SKBO", TimeGroup(t)>> \o (IF Digit0(q, c, 1) = "TAF" THEN <<DH(HourFloor(t), FALSE) \o "/" \o DH(HourFloor(t) + Day, FALSE)>> ELSE <<"CAVOK">>), " "), t)]

---------------------------------------------------------------------------
\* every sequence of header words
HeaderWords == <<"METAR", "SPECI", "TAF", "AMD", "COR", "CORR", "AUTO", "NIL", "CNL", "FINO", "TEST", "SKBO", "071830Z", "0718/0818">>
HeadersOf(kd, k, stride) ==
  LET m == Mine(Power(Len(HeaderWords), k), stride)
  IN  [i \in 1..Len(m) |-> [kind |-> kd, text |-> Join(SmallSeq(HeaderWords, k, m[i]), " "), y |-> 2020, mo |-> 7]]
HeaderGrid == FlattenSeqs([k \in 1..(IF Deep THEN 4 ELSE 3) |-> HeadersOf("METAR", k, IF k = 4 THEN 2 ELSE 1) \o HeadersOf("TAF", k, IF k = 4 THEN 2 ELSE 1)])
=============================================================================
