-------------------------------- MODULE Pairs -------------------------------
(* Cases of two related texts, and cases under a clock.                      *)
EXTENDS Families, Helpers

---------------------------------------------------------------------------
(* Family "layout": one report laid out in different ways.                   *)
Gaps == <<" ", " ", "  ", "   ", "\t", "\n", "\r\n", "\n ", " \n", "\n    ", "\t\t", " \t ", "\n\n", "\r\n  ", " \r\n\t">>
Edges == <<"", "", "", " ", "\n", "\t", "  \n", "\r\n", " \r\n ">>
RECURSIVE LaidOut(_, _, _)
LaidOut(ws, k, style) ==
  IF k > Len(ws) THEN ""
  ELSE ws[k]
       \o (IF Chance(2, k) THEN "=" ELSE "")
       \o (IF k = Len(ws) THEN ""
           ELSE (IF style = 0 THEN " " ELSE IF style = 1 THEN OneOf(Gaps, k) ELSE Gaps[style]) \o (IF Chance(2, k) THEN "= " ELSE ""))
       \o LaidOut(ws, k + 1, style)
Ending(n) == OneOf(<<"", "", "=", "=", " =", "\n=", "==", " = ">>, n)
LayoutBase(n) == CASE n % 8 \in {0, 1, 2} -> ReportCase("METAR", n)
                   [] n % 8 \in {3, 4} -> ReportCase("TAF", n)
                   [] n % 8 = 5 -> ChainCase(n)
                   [] n % 8 = 6 -> TrendClockCase(n)
                   [] OTHER -> SectionCase(IF Chance(50, n) THEN "METAR" ELSE "TAF", n)
LayoutCase(n) ==
  LET b == LayoutBase(n)
      t == OneOf(Edges, n) \o LaidOut(RawWords(b.text), 1, Pick({0, 1, 1, 1} \cup (3..Len(Gaps)), n)) \o Ending(n) \o OneOf(Edges, n)
  IN  [kind |-> b.kind, y |-> b.y, mo |-> b.mo, text |-> t, canon |-> RawCode(b.text)]
LayoutCases == [n \in 1..SIZE |-> LayoutCase(n)]

---------------------------------------------------------------------------
(* Family "clock": a report read at an instant, in a time zone, with or      *)
(* without the year and the month given.  y and mo are those that count.     *)
Zones == <<"UTC0", "COT5", "JST-9", "LINT-14", "GMT12", "GMT0BST,M3.5.0/1,M10.5.0">>
ClockCase(n) ==
  LET kd == IF n % 2 = 0 THEN "METAR" ELSE "TAF"
      now == Instant(n)                       \* the clock, in UTC
      edge == IF Chance(40, n) THEN (IF Chance(50, n) THEN At(YearMonth(now).y, 1, 1, 0, 0) ELSE At(YearMonth(now).y, YearMonth(now).m, 1, 0, 0)) - Pick({0, 1, 300, 600}, n) ELSE now
      gy == Chance(50, n)  gm == Chance(50, n)
      y == IF gy THEN Pick(1990..2035, n) ELSE YearMonth(edge).y
      mo == IF gm THEN Pick(1..12, n) ELSE YearMonth(edge).m
      t == At(y, mo, Pick(1..28, n), Pick(0..23, n), Pick(0..59, n))
      head == <<OneOf(<<kd, "">>, n), "SKBO">> \o (IF Chance(80, n) THEN <<TimeGroup(t)>> ELSE <<>>)
      rest == IF kd = "METAR" THEN OneOf(<< <<"09010KT", "9999", "BECMG", "FM" \o HHMM(t, 30, n), "RA">>, <<"CAVOK", "NOSIG">> >>, n)
              ELSE <<ValidCode(ValidityAt(t, n), n), "09010KT", "CAVOK", TempAt(t, n), "TEMPO", "3000", FMCode(HourFloor(t) + 120), "RA">>
  IN  [kind |-> kd, text |-> Join(SelectSeq(head \o rest, LAMBDA w : w # ""), " "), y |-> y, mo |-> mo, gy |-> gy, gm |-> gm,
       now |-> Stamp(edge), sec |-> Pick({0, 1, 59}, n), zone |-> OneOf(Zones, n), zone2 |-> OneOf(Zones, n + 1), now2 |-> Stamp(Instant(n + 1))]
ClockCases == [n \in 1..SIZE |-> ClockCase(n)]

---------------------------------------------------------------------------
(* Family "same": the same groups in the body of a METAR, its trend, the     *)
(* body of a TAF and its change.                                             *)
ContentKinds == <<"wind", "vis", "weather", "cloud">>
Dense(k, n) == CASE k = "weather" -> [i \in 1..Pick(0..3, n) |-> AnyGroup("weather", i)]
                 [] k = "cloud"   -> [i \in 1..Pick(0..4, n) |-> AnyGroup("cloud", i)]
                 [] OTHER         -> IF Chance(75, n) THEN <<AnyGroup(k, n)>> ELSE <<>>
SameCase(n) ==
  LET gs == FlattenSeqs([i \in 1..4 |-> Dense(ContentKinds[i], n)])
      g == Join(gs, " ")
      c == OneOf(<<"TEMPO", "BECMG">>, n)
      ch == OneOf(<<"TEMPO 0719/0721", "BECMG 0719/0721", "PROB30 TEMPO 0719/0721", "FM072000", "PROB40">>, n)
  IN  [kind |-> "METAR", text |-> Join(<<"METAR SKBO 071830Z">> \o gs \o <<c>> \o gs, " "),
       text2 |-> Join(<<"TAF SKBO 071700Z 0718/0818">> \o gs \o <<ch>> \o gs, " "), groups |-> gs, y |-> 2020, mo |-> 7]
SameCases == [n \in 1..SIZE |-> SameCase(n)]

---------------------------------------------------------------------------
(* Family "isolate": two reports that differ in one part; the others show    *)
(* the same.  Parts are numbered from the body, 1.                           *)
Contents0(part, n) == LET t == Whole(part, Density(n)) IN IF Chance(40, n) THEN Perturbed(t, Pick(1..2, n)) ELSE t
PeriodHead(part, n) == IF part = "trend" THEN OneOf(<<"TEMPO", "BECMG">>, n) ELSE OneOf(<<"TEMPO 0719/0721", "BECMG 0720/0722", "PROB30 0722/0800", "PROB40 TEMPO 0719/0720", "FM072000", "FM080000">>, n)
\* (a change's second period of time depends on its head)
PeriodTail(part, n) == LET t == Contents0(part, n) IN IF t = <<>> THEN "" ELSE Join(SelectSeq(Tail(t), LAMBDA w : part = "trend" \/ ~Matches("valid", w)), " ")
Quiet(t, part) == \A w \in ToSet(Words(t)) : IF part \in {"metar", "trend"} THEN ~TrendWord(w) /\ ~RemarkWord(w) ELSE ~ChangeWord(w)
Tidy(t, part) == IF Words(t) # <<>> /\ Quiet(t, part) THEN t ELSE "9999 BKN010"
Parts3(kd, n) ==
  LET b == IF kd = "METAR" THEN "metar" ELSE "taf"
      p == IF kd = "METAR" THEN "trend" ELSE "change"
      m == IF kd = "METAR" THEN 2 ELSE Pick(2..4, n)
      two == <<"TEMPO", "BECMG">>
  IN  [body |-> (LET w == Tidy(Join(Contents0(b, n), " "), b) IN IF Len(Words(w)) < 4 THEN (IF kd = "METAR" THEN "METAR SKBO 071830Z " ELSE "TAF SKBO 071700Z 0718/0818 ") \o w ELSE w), kd |-> kd,
       heads |-> [i \in 1..m |-> IF kd = "METAR" THEN two[i] ELSE PeriodHead(p, i)],
       tails |-> [i \in 1..m |-> LET w == PeriodTail(p, i) IN IF w = "" THEN "RA" ELSE Tidy(w, p)],
       remark |-> IF kd = "METAR" /\ Chance(60, n) THEN LET ws == [i \in 1..Pick(0..6, n) |-> RemarkWordOf(i)] IN Join(<<"RMK">> \o SelectSeq(ws, LAMBDA w : ~TrendWord(w) /\ ~RemarkWord(w)), " ") ELSE ""]
Written(x) == Join(SelectSeq(<<x.body>> \o FlattenSeqs([i \in 1..Len(x.heads) |-> <<x.heads[i], x.tails[i]>>]) \o <<x.remark>>, LAMBDA w : w # ""), " ")
Pairing(m) == [i \in 1..m |-> <<i, i>>]
IsolateCase(kd, n) ==
  LET x == Parts3(kd, n)
      z == Parts3(kd, n + 1)
      m == Len(x.heads)
      q == Pick(1..m, n)
      how == Pick(1..5, n)
      other == CASE how = 1 -> [x EXCEPT !.body = z.body]
                 [] how = 2 -> [x EXCEPT !.tails[q] = z.tails[1]]
                 [] how = 3 -> [x EXCEPT !.heads = SubSeq(x.heads, 1, m - 1), !.tails = SubSeq(x.tails, 1, m - 1)]
                 [] how = 4 -> [x EXCEPT !.remark = IF kd = "TAF" THEN "" ELSE IF x.remark = "" THEN "RMK RA 0800 BKN001 XX" ELSE ""]
                 [] OTHER   -> IF kd = "TAF" THEN [x EXCEPT !.heads[q] = PeriodHead("change", n)] ELSE [x EXCEPT !.tails[q] = z.tails[1] \o " ZZZZZ"]
      same == CASE how = 1 -> [i \in 1..m |-> <<i + 1, i + 1>>]
                [] how = 2 -> SelectSeq(Pairing(m + 1), LAMBDA e : e[1] # q + 1)
                [] how = 3 -> Pairing(m)
                [] how = 4 -> Pairing(m + 1)
                [] OTHER   -> IF kd = "TAF" THEN Pairing(m + 1) ELSE SelectSeq(Pairing(m + 1), LAMBDA e : e[1] # q + 1)
  IN  [kind |-> kd, text |-> Written(x), text2 |-> Written(other), same |-> same, y |-> 2020, mo |-> 7]
IsolateCases == [n \in 1..SIZE |-> IsolateCase(IF n % 2 = 0 THEN "METAR" ELSE "TAF", n)]

---------------------------------------------------------------------------
(* Family "shadow": two full reports that differ in whole parts: in one the  *)
(* remark is there with every word of a remark, or all the periods or the    *)
(* body are others.                                                          *)
Parted(kd, ws, remark) == Join(FlattenSeqs(ws) \o remark, " ")
ShadowCase(kd, r, ks, all) ==
  LET x == DenseWords(kd, r, ks, all)
      z == DenseWords(kd, r + 2 * SIZE, ks, all)
      m == Len(x)
      everything == LET k == Pick(1..Len(RemarkWords), r)
                        ws == SelectSeq(SubSeq(RemarkWords, k, Len(RemarkWords)) \o SubSeq(RemarkWords, 1, k - 1), LAMBDA w : ~TrendWord(w) /\ ~RemarkWord(w))
                    IN  <<"RMK">> \o ws
      how == (r \div 2) % 4
      q == Pick(2..m, r)
      all1 == [i \in 1..m |-> <<i, i>>]
  IN  CASE kd = "METAR" /\ r % 2 = 0 -> [kind |-> kd, text |-> Parted(kd, x, everything), text2 |-> Parted(kd, x, <<>>), same |-> all1, y |-> 2020, mo |-> 7]
        [] how = 0 -> [kind |-> kd, text |-> Parted(kd, x, <<>>), text2 |-> Parted(kd, <<x[1]>>, <<>>), same |-> <<<<1, 1>>>>, y |-> 2020, mo |-> 7]
        [] how = 1 -> [kind |-> kd, text |-> Parted(kd, x, <<>>), text2 |-> Parted(kd, <<x[1]>> \o Tail(z), <<>>), same |-> <<<<1, 1>>>>, y |-> 2020, mo |-> 7]
        [] how = 2 -> [kind |-> kd, text |-> Parted(kd, x, <<>>), text2 |-> Parted(kd, <<z[1]>> \o Tail(x), <<>>), same |-> Tail(all1), y |-> 2020, mo |-> 7]
        [] OTHER   -> [kind |-> kd, text |-> Parted(kd, x, <<>>), text2 |-> Parted(kd, [x EXCEPT ![q] = <<x[q][1], "XX">> \o Tail(z[q])], <<>>),
                       same |-> SelectSeq(all1, LAMBDA e : e[1] # q), y |-> 2020, mo |-> 7]
ShadowCases ==
  LET ks == UNION {ToSet(Table[p]) : p \in {"metar", "trend", "taf", "change"}} \ HeadKinds
      all == AllThin(ks, 2000)
  IN  [r \in 1..2 * SIZE |-> ShadowCase(IF r > SIZE THEN "TAF" ELSE "METAR", r, ks, all)]

---------------------------------------------------------------------------
(* Family "stations": reports of stations of the database (its codes are in  *)
(* the file CODES), of stations near to them and of others.                  *)
StationCodes == JsonDeserialize(IOEnv.CODES)
NearCode(c, n) == LET i == Pick(1..Len(c), n) IN Swap(c, i, Pick(IF i = 1 THEN Upper ELSE UpperDigit, n))
StationText(c, n) == CASE Chance(50, n) -> "METAR " \o c \o " 071830Z 09010KT CAVOK"
                       [] Chance(50, n) -> c \o " 071830Z"
                       [] OTHER -> "SPECI " \o c
StationCase(n) ==
  LET cs == StationCodes
      c == CASE n <= Len(cs) /\ SIZE >= Len(cs) -> cs[n]
             [] OTHER -> OneOf(cs, n)
      d == CASE n <= Len(cs) /\ SIZE >= Len(cs) -> c
             [] Chance(50, n) -> c
             [] Chance(60, n) -> NearCode(c, n)
             [] OTHER -> Pick(Upper, n) \o Pick(UpperDigit, n) \o Pick(UpperDigit, n) \o Pick(UpperDigit, n)
      \* a TAF of a station whose code reads like its header or a change is another matter
      taf == Chance(40, n) /\ ~ChangeWord(d)
  IN  IF taf THEN [kind |-> "TAF", text |-> "TAF " \o d \o " 071700Z 0718/0818 CAVOK", y |-> 2020, mo |-> 7, station |-> d]
      ELSE [kind |-> "METAR", text |-> StationText(d, n), y |-> 2020, mo |-> 7, station |-> d]
StationCases == LET mine == SetToSeq({i \in 1..SIZE : i % SHARDS = SHARD}) IN [m \in 1..Len(mine) |-> StationCase(mine[m])]

---------------------------------------------------------------------------
(* Family "lookups": stations by the other codes they have, [by, code].      *)
Lookups == JsonDeserialize(IOEnv.LOOKUPS)
LookupCase(n) ==
  LET ls == Lookups
      x == IF n <= Len(ls) THEN ls[n] ELSE OneOf(ls, n)
      by == IF n <= Len(ls) \/ Chance(90, n) THEN x[1] ELSE OneOf(<<"ICAO", "IATA", "SYNOP">>, n)
  IN  [kind |-> "STATION", text |-> "", y |-> 2020, mo |-> 7, by |-> by, station |-> IF n <= Len(ls) \/ by # x[1] THEN x[2] ELSE IF Chance(20, n) THEN Lowered(x[2]) ELSE NearCode(x[2], n)]
LookupCases == LET mine == SetToSeq({i \in 1..SIZE : i % SHARDS = SHARD}) IN [m \in 1..Len(mine) |-> LookupCase(mine[m])]

---------------------------------------------------------------------------
(* Family "conversions": temperatures in hundredths of a degree, by steps of *)
(* a degree from the absolute zero up, and at random.                        *)
ConversionCase(n) == [kind |-> "CONVERSION", text |-> "", y |-> 2020, mo |-> 7, hundredths |-> IF n % 2 = 0 THEN (n \div 2) * 100 * SHARDS + 100 * SHARD - 30000 ELSE Pick(-30000..100000, n)]
ConversionCases == [n \in 1..SIZE |-> ConversionCase(n)]
---------------------------------------------------------------------------
(* Family "quantities": quantities built from the text of a number.          *)
QuantityCodes ==
  [Direction |-> {Pad(d, 3) : d \in 0..360} \cup {Pad(d, 2) : d \in 0..36} \cup {"VRB", "///", "//"},
   Speed |-> {Pad(v, 2) : v \in 0..99} \cup {Pad(v, 3) : v \in {0, 1, 50, 99, 100, 149, 150, 250, 999}} \cup {"///", "//"},
   Distance |-> {Pad(v, 4) : v \in {0, 1, 50, 800, 1500, 1852, 4999, 5000, 9000, 9998, 9999, 10000, 16000, 99999}} \cup {Pad(100 * v, 4) : v \in 0..99} \cup {"////"},
   Temperature |-> UNION {{s \o Pad(v, 2), s \o Pad(10 * v + (v % 10), 3)} : s \in {"", "-"}, v \in 0..99} \cup {"//", "///"},
   Pressure |-> {Pad(v, 4) : v \in {0, 850, 999, 1000, 1013} \cup (950..1060)} \cup {"////"}]
QuantitySeq == SetToSeq(UNION {{[cls |-> c, code |-> x, cardinal_of |-> FALSE] : x \in QuantityCodes[c]} : c \in DOMAIN QuantityCodes}
                        \cup {[cls |-> "Direction", code |-> CompassSeq[i], cardinal_of |-> TRUE] : i \in 1..16})
QuantityCases == LET mine == SetToSeq({i \in 1..Len(QuantitySeq) : i % SHARDS = SHARD}) IN
  [m \in 1..Len(mine) |-> QuantitySeq[mine[m]] @@ [kind |-> "QUANTITY", text |-> QuantitySeq[mine[m]].code, y |-> 2020, mo |-> 7]]
---------------------------------------------------------------------------
(* Family "helpers": texts for the text helpers, exhaustive in the small.    *)
SplitWords == <<"TEMPO", "FM", "PROB30", "A", "FM1", "TEMPOX", "XTEMPO", "BECMG", "b", "FMFM", "NOSIG", "M", "TEM", "tempo", "a", "Fm1">>
SplitKeys == <<"TEMPO", "FM", "PROB30", "BECMG", "A", "TEM", "PROB30 TEMPO", "NOSIG", "XX", "MPO">>
Spaces == <<"", "left", "right", "both">>
RECURSIVE Again(_, _)
Again(ws, k) == IF k = 0 THEN <<>> ELSE ws \o Again(ws, k - 1)
SplitCase(n) ==
  LET w0 == [i \in 1..Pick(0..7, n) |-> OneOf(SplitWords, i)]
      ws == IF n % 6 = 0 /\ w0 # <<>> THEN Again(w0, Pick(2..12, n)) ELSE w0
      seps == [i \in 1..Len(ws) |-> IF i = 1 THEN OneOf(<<"", "", " ">>, i) ELSE OneOf(<<" ", " ", " ", "  ", "">>, i)]
  IN  [kind |-> "HELPER", op |-> "split", text |-> Laid(ws, seps) \o OneOf(<<"", "", " ">>, n), y |-> 2020, mo |-> 7,
       keywords |-> [i \in 1..Pick(0..4, n) |-> OneOf(SplitKeys, i)], count |-> IF n % 6 = 0 THEN Pick(0..30, n) ELSE Pick({0, 0, 0, 1, 2, 3}, n), space |-> OneOf(Spaces, n)]
JoinWords(op) ==
  CASE op = "visibility" -> <<"1", "2", "0", "10", "1/2SM", "3/4SM", "1/0SM", "M1/4SM", "11/2SM", "1/2SMX", "5/8SM", "123", "1A", "x", "1/4", "SM", "1_1/2SM", "1/2sm">>
    [] op = "windshear"  -> <<"WS", "WS", "R10", "RWY10", "R03C", "RWY21L", "R27R", "R1", "R123", "R10X", "RWY", "ALL", "ALL", "RWY", "WSX", "XWS", "RWY10CC", "RW10", "R10/", "10", "ws", "r10", "all", "Rwy">>
    [] OTHER             -> <<"PROB30", "PROB40", "PROB50", "TEMPO", "TEMPO", "BECMG", "PROB30X", "XPROB40", "TEMPOX", "PROB", "PROB3", "TEMP", "PROB30_TEMPO", "0718/0720", "prob30", "tempo", "Tempo">>
\* the groups a helper joins
Joinable(op) ==
  CASE op = "visibility" -> <<<<"1", "1/2SM">>, <<"10", "3/4SM">>, <<"2", "5/8SM">>>>
    [] op = "windshear"  -> <<<<"WS", "R10">>, <<"WS", "RWY21L">>, <<"WS", "ALL", "RWY">>>>
    [] OTHER             -> <<<<"PROB30", "TEMPO">>, <<"PROB40", "TEMPO">>>>
JoinOps == <<"visibility", "windshear", "change">>
JoinCase(n) ==
  LET op == OneOf(JoinOps, n)
      many == n % 4 = 0
      w0 == [i \in 1..Pick(1..9, n) |-> OneOf(JoinWords(op), i)]
      ws == IF many THEN Again(OneOf(Joinable(op), n) \o (IF Chance(50, n) THEN <<>> ELSE SubSeq(w0, 1, 1)), Pick(2..40, n)) ELSE w0
      seps == [i \in 1..Len(ws) |-> IF i = 1 THEN OneOf(<<"", "", "", " ">>, i) ELSE IF many THEN OneOf(<<" ", " ", " ", " ", " ", " ", " ", " ", "\t">>, i) ELSE OneOf(<<" ", " ", " ", " ", " ", "  ", "\t", "\n">>, i)]
  IN  [kind |-> "HELPER", op |-> op, text |-> Laid(ws, seps), y |-> 2020, mo |-> 7, words |-> ws, seps |-> seps]
\* every sequence of up to three words for each joining helper
JoinSmall(op) ==
  LET al == JoinWords(op)
      each(k) == LET mine == SetToSeq({c \in 0..(Power(Len(al), k) - 1) : c % SHARDS = SHARD})
                 IN  [m \in 1..Len(mine) |-> LET ws == SmallSeq(al, k, mine[m])
                                                 seps == [i \in 1..k |-> IF i = 1 THEN "" ELSE " "]
                                             IN  [kind |-> "HELPER", op |-> op, text |-> Laid(ws, seps), y |-> 2020, mo |-> 7, words |-> ws, seps |-> seps]]
  IN  each(1) \o each(2) \o each(3)
HelperCases == [n \in 1..SIZE |-> SplitCase(n)] \o [n \in 1..SIZE |-> JoinCase(n)] \o FlattenSeqs([i \in 1..3 |-> JoinSmall(JoinOps[i])])
=============================================================================
