------------------------------- MODULE Scripts ------------------------------
(* Scripts of operations on the lists of a report, and on several reports.   *)
EXTENDS Families
LS == INSTANCE Lists WITH items <- <<>>, pos <- <<>>

Op(o, i) == [o |-> o, i |-> i, c |-> ""]
\* the operations of a script, by number; `add`s take further groups of the kind
ListOps(t) == <<Op("iter", 1), Op("iter", 2), Op("next", 1), Op("next", 2), Op("drop", 1), Op("all", 0), Op("len", 0), Op("codes", 0), Op("items", 0),
                Op("idx", 0), Op("idx", 1), Op("idx", t.lim - 1), Op("idx", t.lim), Op("add", 0), Op("idx", -1), Op("idx", -t.lim), Op("text", 0), Op("own", 0)>>

RECURSIVE Sound(_, _, _, _)
\* a script without impossible operations, its adds given codes; live: iterators in use, x: groups in use
Sound(ops, live, x, t) ==
  IF ops = <<>> THEN <<>>
  ELSE LET p == Head(ops)  r == Tail(ops) IN
       CASE p.o = "iter" -> <<p>> \o Sound(r, live \cup {p.i}, x, t)
         [] p.o \in {"next", "drop"} /\ p.i \notin live -> Sound(r, live, x, t)
         [] p.o = "drop" -> <<p>> \o Sound(r, live \ {p.i}, x, t)
         [] p.o = "add" /\ (live # {} \/ x >= Len(t.groups)) -> Sound(r, live, x, t)
         [] p.o = "add" -> <<[p EXCEPT !.c = t.groups[x + 1], !.i = x + 1]>> \o Sound(r, live, x + 1, t)
         [] OTHER -> <<p>> \o Sound(r, live, x, t)

\* m groups of the kind: the first ones, or any, also the same ones (two trends are of different kinds)
Had(t, m, n) == IF t.name # "trends" /\ Chance(40, n) THEN [i \in 1..m |-> OneOf(t.groups, i)] ELSE SubSeq(t.groups, 1, m)
Probe == <<Op("next", 1), Op("next", 2), Op("own", 0), Op("all", 0), Op("len", 0)>>
ListCase(k, m, ops) ==
  LET t == LS!ListTable[k]  h == Had(t, m, k + m) IN
  [list |-> k, kind |-> t.kind, path |-> t.path, m |-> m, has |-> h, text |-> Join(<<t.lead>> \o h, " "), lead |-> t.lead, y |-> 2020, mo |-> 7, ops |-> Sound(ops \o Probe, {}, m, t)]

Sizes(t) == {0, 1, t.lim - 1, t.lim}
\* every script of SIZE operations, in turn over the kinds of lists and their sizes
ListCases ==
  LET nk == Len(LS!ListTable)
      no == 18
      mine == SetToSeq({c \in 0..(Power(no, SIZE) - 1) : c % SHARDS = SHARD})
  IN  [j \in 1..Len(mine) |->
        LET c == mine[j]
            k == ((c \div SHARDS) % nk) + 1
            t == LS!ListTable[k]
        IN  ListCase(k, IF Chance(50, c) THEN t.lim ELSE Pick(Sizes(t), c), SmallSeq(ListOps(t), SIZE, c))]

\* random longer scripts
ListWalkCases ==
  [n \in 1..SIZE |-> LET k == Pick(1..Len(LS!ListTable), n)
                         t == LS!ListTable[k]
                     IN  ListCase(k, Pick(0..t.lim, n), [i \in 1..Pick(6..30, n) |-> OneOf(ListOps(t), i)])]

---------------------------------------------------------------------------
(* Histories: up to three reports, asked and iterated in any order.  Which   *)
(* question number m stands for is up to the report.                         *)
AnyReport(n) == CASE Chance(35, n) -> ReportCase("METAR", n)
                  [] Chance(40, n) -> ReportCase("TAF", n)
                  [] Chance(40, n) -> ChainCase(n)
                  [] Chance(50, n) -> FullCase(3 * n + 2)
                  [] OTHER -> TrendClockCase(n)
\* a report that has much in common with the report b
Alike(b, n) ==
  LET ws == RawWords(b.text)  m == Len(ws) IN
  CASE Chance(20, n) -> [b EXCEPT !.y = Pick(2000..2030, n), !.mo = Pick(Months31, n)]
    [] Chance(35, n) -> [b EXCEPT !.text = Join(SubSeq(ws, 1, IF m <= 4 THEN m ELSE Pick(4..m, n)), " ")]
    [] Chance(35, n) -> [b EXCEPT !.text = Join(ws \o (IF b.kind = "METAR" THEN <<OneOf(<<"TEMPO", "BECMG", "RMK">>, n)>>
                                                       ELSE <<OneOf(<<"TEMPO", "BECMG", "FM281500", "FM010300", "PROB30">>, n)>>) \o <<AnyGroup("wind", n), "RA">>, " ")]
    [] Chance(20, n) -> [b EXCEPT !.kind = IF b.kind = "METAR" THEN "TAF" ELSE "METAR"]
    [] OTHER         -> [b EXCEPT !.text = Join(Perturb(ws, n), " ")]
RECURSIVE Reports(_, _)
\* nr reports, most of them variants of the first
Reports(rs, nr) == IF Len(rs) = nr THEN rs
                   ELSE Reports(Append(rs, IF rs # <<>> /\ Chance(65, Len(rs)) THEN Alike(rs[1], Len(rs)) ELSE AnyReport(Len(rs) + 1)), nr)

HistoryOp(nr, n) ==
  LET r == Pick(1..nr, n) IN
  CASE Chance(8, n)  -> [o |-> "parse", r |-> r, m |-> 0]
    [] Chance(14, n) -> [o |-> "iter", r |-> r, m |-> Pick(0..99, n)]
    [] Chance(30, n) -> [o |-> "step", r |-> 0, m |-> Pick(0..99, n)]
    [] Chance(6, n)  -> [o |-> "dump", r |-> r, m |-> 0]
    [] Chance(5, n)  -> [o |-> "spoil", r |-> r, m |-> 0]
    [] OTHER         -> [o |-> "ask", r |-> r, m |-> Pick(0..999, n)]
HistoryCase(n) == LET nr == Pick({1, 2, 2, 3, 3}, n) IN
  [reports |-> Reports(<<>>, nr), ops |-> [i \in 1..Pick(10..60, n) |-> HistoryOp(nr, i)] \o [i \in 1..nr |-> [o |-> "dump", r |-> i, m |-> 0]]]
HistoryCases == [n \in 1..SIZE |-> HistoryCase(n)]

\* very many reports in one process, each asked at once and again after all the others
RECURSIVE Crowd(_, _)
Crowd(rs, nr) == IF Len(rs) = nr THEN rs
                 ELSE Crowd(Append(rs, IF rs # <<>> /\ Chance(60, Len(rs)) THEN Alike(OneOf(rs, Len(rs)), Len(rs)) ELSE AnyReport(Len(rs) + 1)), nr)
MarathonCase(n) == LET nr == Pick({30, 60, 140}, n) IN
  [limit |-> 90, reports |-> Crowd(<<>>, nr), ops |-> [i \in 1..(3 * nr) |-> [o |-> IF i > nr /\ i <= 2 * nr /\ i % 3 = 0 THEN "parse" ELSE IF i > nr /\ i <= 2 * nr /\ i % 13 = 1 THEN "spoil" ELSE "dump", r |-> IF i <= nr THEN i ELSE IF i <= 2 * nr THEN Pick(1..nr, i) ELSE i - 2 * nr, m |-> 0]]]
MarathonCases == [n \in 1..SIZE |-> MarathonCase(n)]

\* threads that each read a report; every run of lines[i] lines the next thread goes on
ThreadCase(n) == LET nr == Pick(2..3, n) IN
  [reports |-> Reports(<<>>, nr), lines |-> [i \in 1..Pick({1, 2, 7, 40}, n) |-> Pick({1, 2, 3, 5, 10, 50, 200}, i)]]
ThreadCases == [n \in 1..SIZE |-> ThreadCase(n)]
=============================================================================
