-------------------------------- MODULE Judge -------------------------------
(* What a finished reading (state of Report) says the observed report must   *)
(* be.  Every operator ...Fails gives the set of names of what differs.      *)
EXTENDS Report, Derive

NameOf(k) == CASE k = "tafwind" -> "wind" [] k = "tafvis" -> "vis" [] k = "amdcor" -> "modifier" [] OTHER -> k
ListNames == {"rvr", "weather", "cloud", "shear", "tmax", "tmin"}

ItemsOf(x, n) ==
  SelectSeq(x.items, LAMBDA it : CASE n = "tmax" -> it.k = "taftemp" /\ Starts(it.c, "TX")
                                   [] n = "tmin" -> it.k = "taftemp" /\ Starts(it.c, "TN")
                                   [] OTHER -> NameOf(it.k) = n)
Codes(its) == [i \in 1..Len(its) |-> its[i].c]
LastCode(its) == IF its = <<>> THEN NA ELSE its[Len(its)].c

Pre(p, S) == {p \o "." \o s : s \in S}
If(b, s) == IF b THEN {} ELSE {s}

---------------------------------------------------------------------------
(* Elements.                                                                 *)
\* what is shown when nothing was reported: the type defaults to the kind of the report
Default(n) == IF n = "type" THEN ElementOf("type", kind) ELSE Absent(n)
OneFails(x, o, n) ==
  LET its == ItemsOf(x, n) IN
  Pre(n, ElFails(IF its = <<>> THEN Default(n) ELSE ElementOf(its[Len(its)].k, its[Len(its)].c), o[n]))
ManyFails(x, o, n) ==
  LET its == ItemsOf(x, n) IN
  IF Len(its) # Len(o[n]) THEN {n \o ".length"}
  ELSE UNION {Pre(n \o ToString(i), ElFails(ElementOf(its[i].k, its[i].c), o[n][i])) : i \in 1..Len(its)}
ElementFails(x, o, n) == IF n \in ListNames THEN ManyFails(x, o, n) ELSE OneFails(x, o, n)

\* codes only
OneCodeFails(x, o, n) ==
  LET its == ItemsOf(x, n) IN If((IF its = <<>> THEN Default(n).s.code ELSE LastCode(its)) = o[n].s.code, n)
ManyCodeFails(x, o, n) ==
  LET its == ItemsOf(x, n) IN If(Codes(its) = [i \in 1..Len(o[n]) |-> o[n][i].s.code], n)
CodeFails(x, o, n) == IF n \in ListNames THEN ManyCodeFails(x, o, n) ELSE OneCodeFails(x, o, n)

MetarNames == {"type", "station", "time", "modifier", "wind", "windvar", "vis", "minvis", "rvr", "weather", "cloud", "temps",
               "press", "recent", "shear", "sea", "rwystate"}
TafNames == {"type", "modifier", "station", "time", "nil", "valid", "cnl", "wind", "vis", "weather", "cloud", "tmax", "tmin"}
PeriodNames == {"wind", "vis", "weather", "cloud"}
BodyNames == IF kind = "METAR" THEN MetarNames ELSE TafNames

---------------------------------------------------------------------------
(* Indicators of trends and changes.                                         *)
IndCode(d) == IF kind = "METAR"
              THEN IF d.ind = NULL THEN (IF d.per = "" THEN NA ELSE d.per) ELSE IF d.per = "" THEN d.ind ELSE d.ind \o " " \o d.per
              ELSE IF d.ind = NULL THEN NA
              ELSE IF IsFM(d.ind) \/ d.per = "" THEN d.ind ELSE d.ind \o " " \o d.per
FromUntil(d) == "from " \o Stamp(d.from) \o " until " \o Stamp(d.until)
IndText(d) == IF d.ind = NULL THEN NA
              ELSE IF IsFM(d.ind) THEN FromUntil(d)
              ELSE IF kind = "TAF" /\ d.per # "" THEN IndicatorText[d.ind] \o " " \o FromUntil(d)
              ELSE IndicatorText[d.ind]

IndCodeFails(x, o) == If(IndCode(x.dates) = o.ind.s.code, "ind.code")
IndTextFails(x, o) == If(IndText(x.dates) = o.ind.s.translation, "ind.translation")
PeriodFails(x, o) ==
  LET d == x.dates IN
  IF kind = "METAR"
  THEN If(o.ind.s.init = Stamp(d.time), "ind.init") \cup If(o.ind.s.end = Stamp(d.time + 120), "ind.end")
       \cup If(o.ind.s.from = Stamp(d.from), "ind.from") \cup If(o.ind.s.until = Stamp(d.until), "ind.until")
       \cup If(o.ind.s.at = (IF d.at = Nothing THEN NA ELSE Stamp(d.at)), "ind.at")
  ELSE If(o.ind.s.from = Stamp(d.from), "ind.from") \cup If(o.ind.s.until = Stamp(d.until), "ind.until")
       \cup If(o.ind.s.dur = ToString(d.until - d.from), "ind.duration")

\* the moments of a trend that the two hours after the report do not hold are not specified
InTwoHours(x) == \A n \in 1..Len(x.items) : x.items[n].k = "trendtime" =>
                   LET f == Fields("trendtime", x.items[n].c) IN WithinWindow(x.dates.time, Val(f["hour"]), Val(f["min"]))

---------------------------------------------------------------------------
(* Parts.                                                                    *)
Obs(o, j) == IF j = 1 THEN o.b ELSE o.p[j - 1]
\* the parts whose contents are specified
Clear(ws) == ~(kind = "METAR" /\ TrendUnclear(MetarSections(ws).trend))

\* F(x, ob) collected over all parts; the periods must be those of the reading
PartsFails(o, F(_, _, _)) ==
  IF Len(o.p) # Len(finished) - 1 THEN {"periods"}
  ELSE UNION {Pre(IF j = 1 THEN "body" ELSE "period" \o ToString(j - 1), F(finished[j], Obs(o, j), j)) : j \in 1..Len(finished)}

NamesAt(j, body, period) == IF j = 1 THEN body \cap BodyNames ELSE period
ValueFails(o, body, period) ==
  PartsFails(o, LAMBDA x, ob, j : UNION {ElementFails(x, ob, n) : n \in NamesAt(j, body, period)})

CodesFails(o) ==
  PartsFails(o, LAMBDA x, ob, j :
     UNION {CodeFails(x, ob, n) : n \in NamesAt(j, BodyNames, PeriodNames)}
     \cup (IF j = 1 THEN {} ELSE IndCodeFails(x, ob))
     \cup If(FlatWords(ob.unparsed) = FlatWords(x.unparsed), "unparsed"))

---------------------------------------------------------------------------
(* C01: accounting, without regard to which slot took what.                  *)
ObsCodes(o, n) == IF n \in ListNames THEN [i \in 1..Len(o[n]) |-> o[n][i].s.code]
                  ELSE IF o[n].s.code = NA THEN <<>> ELSE <<o[n].s.code>>
RECURSIVE SumCodes(_, _)
SumCodes(o, ns) == IF ns = {} THEN <<>> ELSE LET n == CHOOSE x \in ns : TRUE IN ObsCodes(o, n) \o SumCodes(o, ns \ {n})

HasDefaultType(x, o) == \A i \in 1..Len(x.items) : x.items[i].k # "type"
\* the groups that were decoded although no element shows them any more: a first pressure, a period of an FM or unknown change
Superseded(x) ==
  LET ps == ItemsOf(x, "press") IN
  (IF Len(ps) = 2 THEN <<ps[1].c>> ELSE <<>>)
  \o (IF x.part = "change" /\ x.dates.per # "" /\ (x.dates.ind = NULL \/ IsFM(x.dates.ind)) THEN <<x.dates.per>> ELSE <<>>)
AccountFails(o) ==
  PartsFails(o, LAMBDA x, ob, j :
    LET ws == FlatWords(GroupsOf(x.part, x.code))
        ns == (IF j = 1 THEN BodyNames ELSE PeriodNames) \ (IF j = 1 /\ HasDefaultType(x, ob) THEN {"type"} ELSE {})
        shown == FlatWords(SumCodes(ob, ns)) \o (IF j = 1 \/ ob.ind.s.code = NA THEN <<>> ELSE FlatWords(<<ob.ind.s.code>>))
                 \o FlatWords(Superseded(x))
        un == FlatWords(ob.unparsed)
    IN  If(SameBag(ws, shown \o un), "accounting") \cup If(IsSubsequence(un, ws, 1, 1), "unparsed order")
        \cup (IF j = 1 /\ kind = "METAR" THEN If(ob.press.s.code = LastCode(ItemsOf(x, "press")), "last pressure") ELSE {}))
  \cup If(o.allunparsed = o.b.unparsed \o FlattenSeqs([j \in 1..Len(o.p) |-> o.p[j].unparsed]), "report unparsed")

---------------------------------------------------------------------------
(* C06: sections.                                                            *)
SectionFails(o, ws) ==
  LET J(v) == NoUnderscore(Join(v, " ")) IN
  IF kind = "METAR"
  THEN LET s == MetarSections(ws)  e == <<J(s.body), J(s.trend), J(s.remark)>> IN
       If([i \in 1..Len(o.sections) |-> NoUnderscore(o.sections[i])] = e, "sections")
       \cup If(<<NoUnderscore(o.body), NoUnderscore(o.trend), NoUnderscore(o.remark)>> = e, "body/trend/remark")
  ELSE LET s == TafSections(ws)  e == <<J(s.body), J(FlattenSeqs(s.changes))>> IN
       If([i \in 1..Len(o.sections) |-> NoUnderscore(o.sections[i])] = e, "sections")
       \cup If(<<NoUnderscore(o.body), NoUnderscore(o.changes)>> = e, "body/weather_changes")
PeriodCodeFails(o) ==
  IF Len(o.p) # Len(finished) - 1 THEN {"periods"}
  ELSE UNION {If(NoUnderscore(o.p[j].code) = NoUnderscore(Join(finished[j + 1].code, " ")), "period" \o ToString(j) \o ".code") : j \in 1..Len(o.p)}

\* wherever a METAR's trends are parted, together they are the trend section
WholeTrendFails(o, ws) ==
  If(NoUnderscore(Join([j \in 1..Len(o.p) |-> o.p[j].code], " ")) = NoUnderscore(Join(MetarSections(ws).trend, " ")), "trend section")

---------------------------------------------------------------------------
(* Derived values.                                                           *)
CloudFields(x) == Fld(ItemsOf(x, "cloud"))
VisOf(x) == LET its == ItemsOf(x, "vis") IN IF its = <<>> THEN None ELSE ElementOf(its[Len(its)].k, its[Len(its)].c).q.m
CeilingFails(o) == PartsFails(o, LAMBDA x, ob, j : If(ob.ceiling = Bool(Ceiling(CloudFields(x))), "ceiling"))
RulesFails(o) == PartsFails(o, LAMBDA x, ob, j : If(ob.fr = FlightRules(VisOf(x), CeilingBase(CloudFields(x))), "flight_rules"))
CavokFails(o) == PartsFails(o, LAMBDA x, ob, j :
                   If(ob.cavok = Bool(Cavok(Len(ItemsOf(x, "weather")), VisOf(x), CloudFields(x))), "should_be_cavok"))

---------------------------------------------------------------------------
(* The runways with wind shear: all of them, or those with a name.           *)
ShearFails(o) ==
  PartsFails(o, LAMBDA x, ob, j :
    IF j > 1 THEN {}
    ELSE LET its == ItemsOf(x, "shear")
             els == [i \in 1..Len(its) |-> ElementOf("shear", its[i].c)]
             all == Len(els) = 1 /\ els[1].s.all = Tru
             names == [i \in 1..Len(els) |-> els[i].s.name]
         IN  If(ob.shearall = Bool(all), "all_runways") \cup If(ob.shearnames = SelectSeq(names, LAMBDA t : t # NA), "windshear names"))

---------------------------------------------------------------------------
(* Instants.                                                                 *)
TimeFails(o) ==
  LET d == finished[1].dates
      dt == Date(d.time \div Day)
      s == o.b.time.s
  IN  If(s.stamp = Stamp(d.time), "time") \cup If(s.code = LastCode(ItemsOf(finished[1], "time")), "time.code")
      \cup If(<<s.y, s.mo, s.d, s.h, s.mi>> = <<ToString(dt.y), ToString(dt.m), ToString(dt.d), ToString(HourOf(d.time)), ToString(MinuteOf(d.time))>>, "time parts")
ValidFails(o) ==
  LET d == finished[1].dates  s == o.b.valid.s IN
  IF ItemsOf(finished[1], "valid") = <<>> THEN If(s.code = NA, "valid.code")
  ELSE If(s.from = Stamp(d.vfrom), "valid.from") \cup If(s.until = Stamp(d.vuntil), "valid.until")
       \cup If(s.dur = ToString(d.vuntil - d.vfrom), "valid.duration") \cup If(s.code = LastCode(ItemsOf(finished[1], "valid")), "valid.code")

TafTempFails(o, n) ==
  LET x == finished[1]
      its == ItemsOf(x, n)
  IN  IF Len(its) # Len(o.b[n]) THEN {n \o ".length"}
      ELSE UNION {LET f == Fields("taftemp", its[i].c)
                      t == Resolve(x.dates.time, Val(f["day"]), Val(f["hour"]))
                      ob == o.b[n][i]
                  IN  Pre(n \o ToString(i), If(ob.s.code = its[i].c, "code") \cup If(ob.s.stamp = Stamp(t), "time")
                                            \cup If(NumOK(Celsius(f["sign"], f["temp"]), ob.q.c), "celsius"))
                  : i \in 1..Len(its)}
=============================================================================
