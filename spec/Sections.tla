------------------------------ MODULE Sections ------------------------------
(* From the raw text to the groups of each part of the report.               *)
EXTENDS Text, Grammar

\* the words of the text, end signs dropped
RawWords(text) ==
  LET ws == Words(text) IN
  IF ~Has(text, "=") THEN ws
  ELSE SelectSeq([k \in 1..Len(ws) |-> IF Has(ws[k], "=") THEN Without(ws[k], "=") ELSE ws[k]], LAMBDA w : w # "")
RawCode(text) == Join(RawWords(text), " ")

StartsAny(w, ps) == \E p \in ps : Starts(w, p)

---------------------------------------------------------------------------
(* METAR: body, trend and remark.                                            *)
TrendWord(w) == StartsAny(w, {"NOSIG", "TEMPO", "BECMG"})
RemarkWord(w) == Starts(w, "RMK")

\* section of each word: the section of the last keyword at or before it
RECURSIVE MarkWords(_, _, _)
MarkWords(ws, k, cur) ==
  IF k > Len(ws) THEN <<>>
  ELSE LET now == IF TrendWord(ws[k]) THEN "trend" ELSE IF RemarkWord(ws[k]) THEN "remark" ELSE cur IN
       <<now>> \o MarkWords(ws, k + 1, now)

PickWords(ws, marks, m) ==
  LET idx == SetToSortSeq({k \in 1..Len(ws) : marks[k] = m}, LAMBDA a, b : a < b) IN
  [k \in 1..Len(idx) |-> ws[idx[k]]]

MetarSections(ws) ==
  LET m == MarkWords(ws, 1, "body") IN
  [body |-> PickWords(ws, m, "body"), trend |-> PickWords(ws, m, "trend"), remark |-> PickWords(ws, m, "remark")]

(* The trends of a METAR start at the first TEMPO and at the first BECMG     *)
(* after the first word of the trend section (later ones do not separate).   *)
TrendCuts(ws) ==
  LET first(w) == LET c == {k \in 2..(Len(ws) - 1) : ws[k] = w} IN IF c = {} THEN {} ELSE {Min(c)}
  IN  first("TEMPO") \cup first("BECMG")
\* more keywords than separators, or a period without contents: which period such words belong to is not specified
TrendUnclear(ws) == \/ \E w \in {"TEMPO", "BECMG"} : Cardinality({k \in 2..Len(ws) : ws[k] = w}) > 1
                    \/ \E k \in 2..(Len(ws) - 1) : ws[k] \in {"TEMPO", "BECMG"} /\ ws[k + 1] \in {"TEMPO", "BECMG"}

RECURSIVE CutAt(_, _, _)
\* ws cut before each position of the set cuts
CutAt(ws, cuts, from) ==
  IF from > Len(ws) THEN <<>>
  ELSE LET later == {c \in cuts : c > from}
           to == IF later = {} THEN Len(ws) ELSE Min(later) - 1
       IN  <<SubSeq(ws, from, to)>> \o CutAt(ws, cuts, to + 1)

MetarTrends(ws) == CutAt(ws, TrendCuts(ws), 1)

---------------------------------------------------------------------------
(* Compound groups: two or three words that make one group.                  *)
NM == Cat(Cat(Cat(D1, {"/"}), D1 \ {"0"}), {"SM"})
IsShort(w) == Len(w) \in {1, 2} /\ IsDigits(w)
WsRunway(w) == \/ Len(w) \in {3, 4} /\ Char(w, 1) = "R" /\ IsDigits(SubSeq(w, 2, 3)) /\ (Len(w) = 3 \/ Char(w, 4) \in {"R", "L", "C"})
               \/ Len(w) \in {5, 6} /\ Starts(w, "RWY") /\ IsDigits(SubSeq(w, 4, 5)) /\ (Len(w) = 5 \/ Char(w, 6) \in {"R", "L", "C"})
\* canonical form of the second word: RWYnn is shown as Rnn
RunwayWord(w) == IF Starts(w, "RWY") THEN "R" \o DropFirst(w, 3) ELSE w

RECURSIVE Grouped(_, _, _)
\* the groups of the words from the k-th on; shear: wind shear groups are joined
Grouped(ws, k, shear) ==
  IF k > Len(ws) THEN <<>>
  ELSE IF k < Len(ws) /\ IsShort(ws[k]) /\ ws[k + 1] \in NM
       THEN <<ws[k] \o " " \o ws[k + 1]>> \o Grouped(ws, k + 2, shear)
  ELSE IF shear /\ k + 1 < Len(ws) /\ ws[k] = "WS" /\ ws[k + 1] = "ALL" /\ ws[k + 2] = "RWY"
       THEN <<"WS ALL RWY">> \o Grouped(ws, k + 3, shear)
  ELSE IF shear /\ k < Len(ws) /\ ws[k] = "WS" /\ WsRunway(ws[k + 1])
       THEN <<"WS " \o RunwayWord(ws[k + 1])>> \o Grouped(ws, k + 2, shear)
  ELSE <<NoUnderscore(ws[k])>> \o Grouped(ws, k + 1, shear)

RECURSIVE JoinProb(_, _)
\* words with PROBnn TEMPO made one word
JoinProb(ws, k) ==
  IF k > Len(ws) THEN <<>>
  ELSE IF k < Len(ws) /\ ws[k] \in {"PROB30", "PROB40"} /\ ws[k + 1] = "TEMPO"
       THEN <<ws[k] \o "_TEMPO">> \o JoinProb(ws, k + 2)
  ELSE <<ws[k]>> \o JoinProb(ws, k + 1)

---------------------------------------------------------------------------
(* TAF: body and changes.  The words of the header and the word after it     *)
(* (the station) never start a change.                                       *)
HeaderLen(ws) == LET a == IF Len(ws) > 1 /\ ws[1] = "TAF" THEN 1 ELSE 0
                     b == IF Len(ws) > a + 1 /\ ws[a + 1] \in {"AMD", "COR"} THEN 1 ELSE 0
                 IN  a + b
ChangeWord(w) == StartsAny(w, {"FM", "TEMPO", "BECMG", "PROB"})
TafSections(ws0) ==
  LET ws == JoinProb(ws0, 1)
      cuts == {k \in (HeaderLen(ws) + 2)..Len(ws) : ChangeWord(ws[k])}
      parts == IF cuts = {} \/ Min(cuts) > 1 THEN CutAt(ws, cuts, 1) ELSE <<<<>>>> \o CutAt(ws, cuts, 1)
  IN  [body |-> IF parts = <<>> THEN <<>> ELSE parts[1], changes |-> IF parts = <<>> THEN <<>> ELSE Tail(parts)]
=============================================================================
