------------------------------- MODULE Report -------------------------------
(* The reading of one METAR or TAF as a state machine.  The parts of the     *)
(* report (body, then its trends or changes) are read one after the other;   *)
(* each step reads one group: Accept gives it to the first slot still ahead  *)
(* that accepts it, Leave puts it among the unparsed groups.  EndPart closes *)
(* a part; for a change of a TAF it also ends the FM change before it.       *)
EXTENDS Sections, Slots, Calendar

VARIABLES kind,      \* "METAR" or "TAF"
          phase,     \* "read", "end" or "RangeError"
          part,      \* table of the part being read
          code,      \* the words of that part
          groups,    \* its groups not yet read
          used,      \* last slot taken in it
          items,     \* what it decoded: sequence of [k, c, i], slot kind, group, slot
          unparsed,  \* its groups no slot accepted
          dates,     \* instants resolved so far
          todo,      \* the parts not yet begun: sequence of words
          finished   \* the parts read: sequence of [part, code, items, unparsed, dates]
rvars == <<kind, phase, part, code, groups, used, items, unparsed, dates, todo, finished>>

Nothing == -1
NULL == "<None>"
Months(y, m) == At(y, m, 1, 0, 0)

\* instants before anything is read; t0 is the first of the month
InitialDates(t0) ==
  [time |-> t0, vfrom |-> t0 + 60, vuntil |-> t0 + 60 + Day,
   ind |-> NULL, per |-> "", from |-> Nothing, until |-> Nothing, at |-> Nothing]

\* the dates a part starts with
PartDates(p, d) ==
  CASE p = "trend"  -> [d EXCEPT !.ind = NULL, !.per = "", !.from = d.time, !.until = d.time + 120, !.at = Nothing]
    [] p = "change" -> [d EXCEPT !.ind = NULL, !.per = "", !.from = d.vfrom, !.until = d.vuntil, !.at = Nothing]
    [] OTHER        -> d

\* what the accepted group g of kind k does to the dates
Effect(p, k, g, d) ==
  LET f == Fields(k, g) IN
  CASE k = "time" -> [d EXCEPT !.time = d.time + (Val(f["day"]) - 1) * Day + Val(f["hour"]) * 60 + Val(f["min"])]
    [] k = "valid" ->
        LET from == Resolve(IF p = "taf" THEN d.time ELSE d.vfrom, Val(f["fmday"]), Val(f["fmhour"]))
            until == Resolve(from, Val(f["tlday"]), Val(f["tlhour"]))
        IN  IF p = "taf" THEN [d EXCEPT !.vfrom = from, !.vuntil = until]
            ELSE [d EXCEPT !.from = from, !.until = until, !.per = g]
    [] k = "trendind" -> [d EXCEPT !.ind = g]
    [] k = "trendtime" ->
        LET t == InWindow(d.time, Val(f["hour"]), Val(f["min"])) IN
        CASE f["prefix"] = "FM" -> [d EXCEPT !.from = t, !.per = IF d.per = "" THEN g ELSE d.per \o " " \o g]
          [] f["prefix"] = "TL" -> [d EXCEPT !.until = t, !.per = IF d.per = "" THEN g ELSE d.per \o " " \o g]
          [] OTHER              -> [d EXCEPT !.at = t, !.per = IF d.per = "" THEN g ELSE d.per \o " " \o g]
    [] k = "changeind" ->
        IF f["ind"] = "FM"
        THEN [d EXCEPT !.ind = g, !.from = NextDay(d.vfrom, Val(f["day"])) + Val(f["hour"]) * 60 + Val(f["min"])]
        ELSE [d EXCEPT !.ind = g]
    [] OTHER -> d

GroupsOf(p, ws) == Grouped(ws, 1, p = "metar")

\* the parts of a text
PartsOf(k, ws) == IF k = "METAR"
                  THEN LET s == MetarSections(ws) IN <<s.body>> \o (IF s.trend = <<>> THEN <<>> ELSE MetarTrends(s.trend))
                  ELSE LET s == TafSections(ws) IN <<s.body>> \o s.changes

PeriodPart == IF kind = "METAR" THEN "trend" ELSE "change"
MaxPeriods == IF kind = "METAR" THEN 2 ELSE 8

\* state just before the first group of a text with raw words ws
Begin(k, ws, t0) ==
  LET ps == PartsOf(k, ws)
      p == IF k = "METAR" THEN "metar" ELSE "taf"
  IN  /\ kind = k /\ phase = "read" /\ part = p
      /\ code = ps[1] /\ groups = GroupsOf(p, ps[1]) /\ used = 0 /\ items = <<>> /\ unparsed = <<>>
      /\ dates = InitialDates(t0) /\ todo = Tail(ps) /\ finished = <<>>

Extremes(t) == Cardinality({i \in 1..Len(items) : items[i].k = "taftemp" /\ Starts(items[i].c, t)})
\* a third maximum or minimum temperature
TooMany(k, g) == k = "taftemp" /\ Extremes(SubSeq(g, 1, 2)) >= 2

\* slot s takes the next group
Accept(s) ==
  /\ s # 0
  /\ LET g == Head(groups)
         k == Table[part][s]
     IN  /\ ~TooMany(k, g)
         /\ used' = s
         /\ items' = Append(items, [k |-> k, c |-> g, i |-> s])
         /\ dates' = Effect(part, k, g, dates)
  /\ groups' = Tail(groups)
  /\ UNCHANGED <<kind, phase, part, code, unparsed, todo, finished>>

\* no slot takes it
Leave(s) ==
  /\ s = 0
  /\ unparsed' = Append(unparsed, Head(groups))
  /\ groups' = Tail(groups)
  /\ UNCHANGED <<kind, phase, part, code, used, items, dates, todo, finished>>

\* a third maximum or minimum temperature does not fit
OverflowTemperature(s) ==
  /\ s # 0
  /\ TooMany(Table[part][s], Head(groups))
  /\ phase' = "RangeError"
  /\ UNCHANGED <<kind, part, code, groups, used, items, unparsed, dates, todo, finished>>

ReadGroup ==
  /\ phase = "read" /\ groups # <<>>
  /\ LET s == SlotOf(part, used, Head(groups)) IN Accept(s) \/ Leave(s) \/ OverflowTemperature(s)

IsFM(x) == x # NULL /\ Starts(x, "FM")
Ends1(x) == x # NULL /\ (Starts(x, "FM") \/ Starts(x, "BECMG"))

\* the finished parts after a change with dates d: the FM it ends is shortened
CloseFM(fs, d) ==
  IF ~Ends1(d.ind) THEN fs
  ELSE LET js == {j \in 1..Len(fs) : fs[j].part = "change" /\ Ends1(fs[j].dates.ind)} IN
       IF js = {} \/ ~IsFM(fs[Max(js)].dates.ind) THEN fs
       ELSE [fs EXCEPT ![Max(js)].dates.until = d.from - 60]

FinishedNow == Append(IF part = "change" THEN CloseFM(finished, dates) ELSE finished,
                      [part |-> part, code |-> code, items |-> items, unparsed |-> unparsed, dates |-> dates])

EndPart ==
  /\ phase = "read" /\ groups = <<>>
  /\ IF part = PeriodPart /\ Len(finished) > MaxPeriods
     THEN /\ phase' = "RangeError"
          /\ UNCHANGED <<part, code, groups, used, items, unparsed, dates, todo, finished>>
     ELSE /\ finished' = FinishedNow
          /\ IF todo = <<>>
             THEN phase' = "end" /\ UNCHANGED <<part, code, groups, used, items, unparsed, dates, todo>>
             ELSE /\ part' = PeriodPart
                  /\ code' = Head(todo)
                  /\ groups' = GroupsOf(PeriodPart, Head(todo))
                  /\ used' = 0 /\ items' = <<>> /\ unparsed' = <<>>
                  /\ dates' = PartDates(PeriodPart, dates)
                  /\ todo' = Tail(todo)
                  /\ UNCHANGED phase
  /\ UNCHANGED kind

ReportNext == ReadGroup \/ EndPart

---------------------------------------------------------------------------
(* What every reading keeps to, whatever the text.                           *)
SlotsIncrease(its) == \A a, b \in 1..Len(its) : a < b => its[a].i < its[b].i
RightSlot(p, its) == \A a \in 1..Len(its) : its[a].k = Table[p][its[a].i] /\ Matches(its[a].k, its[a].c)
\* every group read is decoded or unparsed, exactly once, and in order
Accounted(all, its, un, rest) ==
  /\ Len(all) = Len(its) + Len(un) + Len(rest)
  /\ SameBag(all, [i \in 1..Len(its) |-> its[i].c] \o un \o rest)
  /\ IsSubsequence([i \in 1..Len(its) |-> its[i].c], all, 1, 1)
  /\ IsSubsequence(un, all, 1, 1)
AccountingInv == /\ Accounted(GroupsOf(part, code), items, unparsed, groups)
                 /\ \A j \in 1..Len(finished) : LET x == finished[j] IN Accounted(GroupsOf(x.part, x.code), x.items, x.unparsed, <<>>)
OrderInv == /\ SlotsIncrease(items) /\ RightSlot(part, items)
            /\ \A j \in 1..Len(finished) : SlotsIncrease(finished[j].items) /\ RightSlot(finished[j].part, finished[j].items)
\* an unparsed group fits no slot that was still ahead of what was read before it
CapacityInv == /\ Len(finished) <= MaxPeriods + 1
               /\ Extremes("TX") <= 2 /\ Extremes("TN") <= 2
FMInv == phase = "end" => \A j \in 2..Len(finished) :
           IsFM(finished[j].dates.ind) =>
             LET nx == {n \in (j + 1)..Len(finished) : Ends1(finished[n].dates.ind)} IN
             finished[j].dates.until = IF nx = {} THEN (IF finished[j].dates.per = "" THEN finished[j].dates.vuntil ELSE finished[j].dates.until)
                                       ELSE finished[Min(nx)].dates.from - 60
=============================================================================
