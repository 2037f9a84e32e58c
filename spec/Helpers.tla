------------------------------- MODULE Helpers ------------------------------
(* The text helpers: cutting a sentence at keywords, and joining the words   *)
(* of groups of several words.                                               *)
EXTENDS Text

(* split_sentence: keyword by keyword, a break before each occurrence from   *)
(* the left on, at most count of them if count is not 0; the blank that must *)
(* stand before a keyword gives way to the break.                            *)
RECURSIVE Broken(_, _, _, _)
Broken(s, kw, rep, left) ==
  LET f == IF left = 0 THEN 0 ELSE Find(s, kw, 1) IN
  IF f = 0 THEN s ELSE SubSeq(s, 1, f - 1) \o rep \o Broken(DropFirst(s, f - 1 + Len(kw)), kw, rep, left - 1)
RECURSIVE BrokenAll(_, _, _, _)
BrokenAll(s, kws, count, space) ==
  IF kws = <<>> THEN s
  ELSE LET left  == IF space \in {"left", "both"} THEN " " ELSE ""
           right == IF space \in {"right", "both"} THEN " " ELSE ""
           kw == Head(kws)
       IN  BrokenAll(Broken(s, left \o kw \o right, "\n" \o kw \o right, IF count = 0 THEN Len(s) + 1 ELSE count), Tail(kws), count, space)
RECURSIVE LinesOf(_)
LinesOf(s) == LET f == Find(s, "\n", 1) IN IF f = 0 THEN <<s>> ELSE <<SubSeq(s, 1, f - 1)>> \o LinesOf(DropFirst(s, f))
Split(s, kws, count, space) == LinesOf(BrokenAll(s, kws, count, space))

(* What must hold of any cut, whatever the way to it.                        *)
NothingLost(s, ps, space) ==
  IF space \in {"left", "both"} THEN InOrder(s, ps, 1, 1) /\ Without(Join(ps, ""), " ") = Without(s, " ")
  ELSE Join(ps, "") = s

---------------------------------------------------------------------------
(* The joining helpers.  A text is words and the blanks between them: seps[i]*)
(* stands before the word i.                                                 *)
Digits19 == Digit \ {"0"}
IsWhole(w) == Len(w) \in 1..2 /\ IsDigits(w)
IsFraction(w) == Len(w) = 5 /\ Char(w, 1) \in Digit /\ Char(w, 2) = "/" /\ Char(w, 3) \in Digits19 /\ SubSeq(w, 4, 5) = "SM"
RunwayOf(w) == IF Starts(w, "RWY") THEN DropFirst(w, 3) ELSE IF Starts(w, "R") THEN DropFirst(w, 1) ELSE ""
IsRunway(n) == Len(n) \in 2..3 /\ IsDigits(SubSeq(n, 1, 2)) /\ (Len(n) = 2 \/ Char(n, 3) \in {"C", "L", "R"})
One(sep) == Len(sep) = 1
\* how many words are joined at the k-th, and to what
Joint(op, ws, seps, k) ==
  LET more(j) == k + j <= Len(ws) /\ \A i \in 1..j : One(seps[k + i]) IN
  CASE op = "visibility" -> IF more(1) /\ IsWhole(ws[k]) /\ IsFraction(ws[k + 1]) THEN <<2, ws[k] \o "_" \o ws[k + 1]>> ELSE <<1, ws[k]>>
    [] op = "windshear"  -> IF ws[k] # "WS" THEN <<1, ws[k]>>
                            ELSE IF more(2) /\ ws[k + 1] = "ALL" /\ ws[k + 2] = "RWY" THEN <<3, "WS_ALL_RWY">>
                            ELSE IF more(1) /\ IsRunway(RunwayOf(ws[k + 1])) THEN <<2, "WS_R" \o RunwayOf(ws[k + 1])>>
                            ELSE <<1, ws[k]>>
    [] op = "change"     -> IF more(1) /\ ws[k] \in {"PROB30", "PROB40"} /\ ws[k + 1] = "TEMPO" THEN <<2, ws[k] \o "_TEMPO">> ELSE <<1, ws[k]>>
RECURSIVE JoinedFrom(_, _, _, _)
JoinedFrom(op, ws, seps, k) ==
  IF k > Len(ws) THEN ""
  ELSE LET j == Joint(op, ws, seps, k) IN seps[k] \o j[2] \o JoinedFrom(op, ws, seps, k + j[1])
Joined(op, ws, seps) == JoinedFrom(op, ws, seps, 1)
RECURSIVE Laid(_, _)
Laid(ws, seps) == IF ws = <<>> THEN "" ELSE Head(seps) \o Head(ws) \o Laid(Tail(ws), Tail(seps))

---------------------------------------------------------------------------
(* A helper is no more than these functions of its arguments.                *)
HelperFails(o) ==
  IF o.out # "ok" THEN {o.out}
  ELSE IF o.op = "split"
       THEN (IF o.got = Split(o.text, o.keywords, o.count, o.space) THEN {} ELSE {"the pieces"})
            \cup (IF NothingLost(o.text, o.got, o.space) THEN {} ELSE {"something is lost"})
       ELSE IF o.got = <<Joined(o.op, o.words, o.seps)>> THEN {} ELSE {"joined"}
=============================================================================
