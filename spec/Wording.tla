------------------------------ MODULE Wording -------------------------------
(* The words for elements and reports.  A wording is [t |-> lines, q |->     *)
(* quantities]: in the lines every number with one decimal reads "#" and the *)
(* degree sign "~"; the quantities are those numbers, in order.              *)
EXTENDS Judge

Line(t, q) == [t |-> IF t = "" THEN <<>> ELSE <<t>>, q |-> q]
NoWords == [t |-> <<>>, q |-> <<>>]
Known(q) == q.k # "none"
IfKnown(q) == IF Known(q) THEN <<q>> ELSE <<>>
Then(b, s) == IF b THEN s ELSE ""
Spaced(ss) == Join(SelectSeq(ss, LAMBDA s : s \notin {"", NA}), " ")
Scaled(q, n, d) == QMul(q, Q(n, d))

RECURSIVE Together(_)
\* one after the other
Together(ws) == IF ws = <<>> THEN NoWords
                ELSE LET r == Together(Tail(ws)) IN [t |-> Head(ws).t \o r.t, q |-> Head(ws).q \o r.q]
RECURSIVE Trimmed(_)
Trimmed(s) == IF s = "" THEN "" ELSE IF Char(s, 1) = " " THEN Trimmed(SubSeq(s, 2, Len(s)))
              ELSE IF Char(s, Len(s)) = " " THEN Trimmed(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* on one line
Beside(ws, sep) == LET r == Together(ws) IN
                   Line(Trimmed(Join([i \in 1..Len(ws) |-> IF ws[i].t = <<>> THEN "" ELSE ws[i].t[1]], sep)), r.q)

LowerText == ("Correction" :> "correction") @@ ("Amendment" :> "amendment") @@ ("Missing report" :> "missing report")
             @@ ("Automatic report" :> "automatic report") @@ ("Testing report" :> "testing report")

SpeedWords(q) == Then(Known(q), "# kt")
WindWords(e) ==
  Line(Spaced(<<e.s.cardinal, IF e.s.variable = Tru THEN "variable wind" ELSE Then(Known(e.q.deg), "(#~)"), SpeedWords(e.q.spd),
                Then(Known(e.q.gust), "gust of # kt")>>),
       IfKnown(e.q.deg) \o IfKnown(e.q.spd) \o IfKnown(e.q.gust))
VisWords(e) ==
  IF "cavok" \in DOMAIN e.s /\ e.s.cavok = Tru THEN Line("Ceiling and Visibility OK", <<>>)
  ELSE Line(Spaced(<<Then(Known(e.q.m), "# km"), Then(Known(e.q.deg), "to " \o e.s.cardinal \o " (#~)")>>),
            (IF Known(e.q.m) THEN <<Scaled(e.q.m, 1, 1000)>> ELSE <<>>) \o IfKnown(e.q.deg))
RangeWords(mark, q) == Spaced(<<mark, "# m">>)
RvrWords(e) ==
  Line("runway " \o e.s.name \o " " \o RangeWords(e.s.lowmark, e.q.low)
       \o Then(Known(e.q.high), " varying to " \o RangeWords(e.s.highmark, e.q.high))
       \o Then(e.s.trend # NA, ", " \o e.s.trend), IfKnown(e.q.low) \o IfKnown(e.q.high))
CloudWords(e) ==
  Line(e.s.cover
       \o (IF Known(e.q.ft) THEN " at # feet"
           ELSE IF e.s.cover \in {"clear", "undefined", "indefinite ceiling"} THEN "" ELSE " at undefined height")
       \o Then(e.s.type # NA, " of " \o e.s.type), IfKnown(e.q.ft))
TempsWords(e) ==
  IF ~Known(e.q.t) /\ ~Known(e.q.d) THEN NoWords
  ELSE Line((IF Known(e.q.t) THEN "temperature: #~C" ELSE "no temperature") \o " | " \o (IF Known(e.q.d) THEN "dewpoint: #~C" ELSE "no dewpoint"),
            IfKnown(e.q.t) \o IfKnown(e.q.d))
SeaWords(e) ==
  IF ~Known(e.q.t) /\ ~Known(e.q.h) /\ e.s.state = NA THEN NoWords
  ELSE Line((IF Known(e.q.t) THEN "temperature #~C" ELSE "no temperature") \o ", "
            \o (IF Known(e.q.h) THEN "significant wave height # m" ELSE "no significant wave height") \o ", "
            \o (IF e.s.state = NA THEN "no sea state" ELSE e.s.state), IfKnown(e.q.t) \o IfKnown(e.q.h))
Shown(t) == IF t = NA THEN "None" ELSE t
DepositWords(e, f) ==
  LET odd == G(f, "depth") \in {"99", "//"} IN
  IF G(f, "deposit") = "/"
  THEN IF odd THEN e.s.depth \o " and " \o e.s.deposits ELSE "depth of " \o e.s.depth \o " but " \o e.s.deposits
  ELSE IF odd THEN e.s.depth \o " of " \o e.s.deposits ELSE "deposits of " \o e.s.depth \o " of " \o e.s.deposits
StateWords(e, f) ==
  CASE e.s.code = NA      -> NoWords
    [] e.s.snoclo = Tru   -> Line("aerodrome is closed due to extreme deposit of snow", <<>>)
    [] e.s.clrd # NA      -> Line(e.s.clrd, <<>>)
    [] OTHER -> Line(Shown(e.s.name) \o ", " \o DepositWords(e, f) \o ", contamination " \o Shown(e.s.contamination) \o ", "
                     \o Then(IsDigits(G(f, "fric")) /\ Val(G(f, "fric")) < 91, "estimated surface friction ") \o e.s.friction, <<>>)

\* the words for the element of a group c of kind k (NA: not reported)
Word(k, c) ==
  LET f == IF c = NA THEN NoFields ELSE Fields(k, c)
      e == Element(k, f, c)
      v(ns) == Line(Spaced([i \in 1..Len(ns) |-> e.s[ns[i]]]), <<>>)
  IN
  CASE k = "type" -> Line(e.s.type \o " (" \o c \o ")", <<>>)
    [] k \in {"modifier", "amdcor", "nil"} -> Line(IF e.s.desc = NA THEN "" ELSE LowerText[e.s.desc], <<>>)
    [] k = "cnl" -> Line(Then(c # NA, "cancelled"), <<>>)
    [] k \in {"wind", "tafwind"} -> WindWords(e)
    [] k = "windvar" -> IF c = NA THEN NoWords
                        ELSE Line("from " \o e.s.fromcard \o " (#~) to " \o e.s.tocard \o " (#~)", <<e.q.from, e.q.to>>)
    [] k \in {"vis", "tafvis", "minvis"} -> VisWords(e)
    [] k = "rvr" -> RvrWords(e)
    [] k = "weather" -> v(<<"int", "desc", "prec", "obsc", "other">>)
    [] k = "recent" -> v(<<"desc", "prec", "obsc", "other">>)
    [] k = "cloud" -> CloudWords(e)
    [] k = "temps" -> TempsWords(e)
    [] k = "press" -> Line(Then(Known(e.q.hpa), "# hPa"), IfKnown(e.q.hpa))
    [] k = "shear" -> Line(IF e.s.name # NA THEN e.s.name ELSE Then(e.s.all = Tru, "all"), <<>>)
    [] k = "sea" -> SeaWords(e)
    [] k = "rwystate" -> StateWords(e, f)
    [] OTHER -> NoWords

FromUntilWords(a, b) == "from " \o Stamp(a) \o " until " \o Stamp(b)
StationWords(s) == LET v(n) == Shown(s[n]) IN
  Line("Name: " \o v("name") \o " | Coordinates: " \o v("lat") \o " " \o v("lon") \o " | Elevation: " \o v("elev") \o " m MSL | Country: " \o v("country"), <<>>)
TafTempWords(x, c) ==
  LET f == Fields("taftemp", c) IN
  Line("#~C at " \o Stamp(Resolve(x.dates.time, Val(f["day"]), Val(f["hour"]))), <<Celsius(f["sign"], f["temp"])>>)
IndicatorWords(x) ==
  LET d == x.dates IN
  IF d.ind = NULL THEN NoWords
  ELSE IF x.part = "trend" THEN Line(IndText(d) \o (IF d.at # Nothing THEN " at " \o Stamp(d.at) ELSE " " \o FromUntilWords(d.from, d.until)), <<>>)
  ELSE Line(IndText(d), <<>>)

\* the words for an item of part x, observed as ob
ItemWords(x, it, ob) ==
  CASE it.k = "station" -> StationWords(ob.station.s)
    [] it.k = "time" -> Line(Stamp(x.dates.time), <<>>)
    [] it.k = "valid" -> IF x.part = "taf" THEN Line(FromUntilWords(x.dates.vfrom, x.dates.vuntil), <<>>) ELSE NoWords
    [] it.k \in {"changeind", "trendind"} -> IndicatorWords(x)
    [] it.k = "taftemp" -> TafTempWords(x, it.c)
    [] OTHER -> Word(it.k, it.c)
PartWords(x, ob) == Together([i \in 1..Len(x.items) |-> ItemWords(x, x.items[i], ob)])

---------------------------------------------------------------------------
\* a number with one decimal stands for all that round to it
Rounded(q, o) == NumOKs(q, o, 50000000)
WordsOK(w, o) == /\ w.t = o.t
                 /\ Len(w.q) = Len(o.n)
                 /\ \A i \in 1..Len(w.q) : Rounded(w.q[i], o.n[i])

OneWording(x, n, ob) ==
  LET its == ItemsOf(x, n)
      c == IF its = <<>> THEN NA ELSE its[Len(its)].c
  IN  CASE n \in {"station", "time", "valid"} /\ its = <<>> -> {}
        [] n = "type" /\ its = <<>> -> If(WordsOK(Word("type", kind), ob.type.w), "type")
        [] n \in {"station", "time", "valid"} -> If(WordsOK(ItemWords(x, its[Len(its)], ob), ob[n].w), n)
        [] OTHER -> If(WordsOK(Word(IF its = <<>> THEN n ELSE its[Len(its)].k, c), ob[n].w), n)
ListWords(x, n, ob) == LET its == ItemsOf(x, n) IN [i \in 1..Len(its) |-> ItemWords(x, its[i], ob)]
ManyWording(x, n, ob) ==
  LET ws == ListWords(x, n, ob)
      all == n = "shear" /\ Len(ws) = 1 /\ Element("shear", Fields("shear", ItemsOf(x, n)[1].c), "").s.all = Tru
  IN  IF Len(ws) # Len(ob[n]) THEN {n \o ".length"}
      ELSE UNION {If(WordsOK(ws[i], ob[n][i].w), n \o ToString(i)) : i \in 1..Len(ws)}
           \cup If(WordsOK(IF all THEN Line("all runways", <<>>) ELSE Beside(ws, " | "), ob[n \o "list"]), n \o " list")

WordFails(o) ==
  PartsFails(o, LAMBDA x, ob, j :
    UNION {IF n \in ListNames THEN ManyWording(x, n, ob) ELSE OneWording(x, n, ob) : n \in NamesAt(j, BodyNames, PeriodNames)}
    \cup (IF j = 1 \/ ~InTwoHours(x) THEN {} ELSE If(WordsOK(PartWords(x, ob), ob.w), "text") \cup (IF x.dates.ind = NULL THEN {} ELSE If(WordsOK(IndicatorWords(x), ob.ind.w), "indicator"))))
  \cup (IF Len(o.p) # Len(finished) - 1 \/ (\E j \in 2..Len(finished) : ~InTwoHours(finished[j])) THEN {}
        ELSE LET ps == [j \in 1..Len(finished) |-> PartWords(finished[j], Obs(o, j))] IN
             If(WordsOK(Together(ps), o.w), "report text") \cup If(WordsOK(Together(Tail(ps)), o.periods), "periods text"))
=============================================================================
