-------------------------------- MODULE Text --------------------------------
(* Texts are TLA+ strings; TLC supports Len, SubSeq and \o on them.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Char(s, i) == SubSeq(s, i, i)
Mid(s, i, j) == SubSeq(s, i, j)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Ends(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
DropFirst(s, n) == SubSeq(s, n + 1, Len(s))

DigitSeq == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Digit == {DigitSeq[i] : i \in 1..10}
DigitVal == ("0" :> 0) @@ ("1" :> 1) @@ ("2" :> 2) @@ ("3" :> 3) @@ ("4" :> 4) @@ ("5" :> 5) @@ ("6" :> 6) @@ ("7" :> 7) @@ ("8" :> 8) @@ ("9" :> 9)
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
SmallOf == TLCEval([c \in ToSet(UpperSeq) |-> LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c]])
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
UpperDigit == Upper \cup Digit
Blank == {" ", "\t", "\n", "\r"}

RECURSIVE Val(_)
\* value of a text of decimal digits
Val(s) == IF s = "" THEN 0
          ELSE 10 * Val(SubSeq(s, 1, Len(s) - 1)) + DigitVal[Char(s, Len(s))]

IsDigits(s) == \A i \in 1..Len(s) : Char(s, i) \in Digit

Pad(n, w) == LET t == ToString(n) IN
             IF Len(t) >= w THEN t
             ELSE CASE w - Len(t) = 1 -> "0" \o t
                    [] w - Len(t) = 2 -> "00" \o t
                    [] w - Len(t) = 3 -> "000" \o t
                    [] OTHER -> t

RECURSIVE Without(_, _)
\* s without the character c
Without(s, c) ==
  IF s = "" THEN ""
  ELSE IF Len(s) = 1 THEN (IF s = c THEN "" ELSE s)
  ELSE LET h == Len(s) \div 2 IN Without(SubSeq(s, 1, h), c) \o Without(SubSeq(s, h + 1, Len(s)), c)

RECURSIVE Lowered(_)
\* s in small letters
Lowered(s) == IF s = "" THEN "" ELSE (IF Char(s, 1) \in Upper THEN SmallOf[Char(s, 1)] ELSE Char(s, 1)) \o Lowered(DropFirst(s, 1))
Titled(s) == IF s = "" THEN "" ELSE Char(s, 1) \o Lowered(DropFirst(s, 1))

Has(s, c) == \E i \in 1..Len(s) : Char(s, i) = c

RECURSIVE Replaced(_, _, _)
\* s with every character c replaced by the text d
Replaced(s, c, d) ==
  IF s = "" THEN ""
  ELSE IF Len(s) = 1 THEN (IF s = c THEN d ELSE s)
  ELSE LET h == Len(s) \div 2 IN Replaced(SubSeq(s, 1, h), c, d) \o Replaced(SubSeq(s, h + 1, Len(s)), c, d)

\* the blanks of the code's two-word groups are shown as blanks or as "_"
NoUnderscore(s) == IF Has(s, "_") THEN Replaced(s, "_", " ") ELSE s

\* the maximal blank-free pieces of s, in order
Words(s) ==
  LET n == Len(s)
      nb == {i \in 1..n : Char(s, i) \notin Blank}
      first == SetToSortSeq({i \in nb : i = 1 \/ (i - 1) \notin nb}, LAMBDA a, b : a < b)
      last  == SetToSortSeq({i \in nb : i = n \/ (i + 1) \notin nb}, LAMBDA a, b : a < b)
  IN  [k \in 1..Len(first) |-> SubSeq(s, first[k], last[k])]

RECURSIVE JoinFrom(_, _, _)
JoinFrom(ws, sep, i) ==
  IF i > Len(ws) THEN ""
  ELSE IF i = Len(ws) THEN ws[i]
  ELSE ws[i] \o sep \o JoinFrom(ws, sep, i + 1)
Join(ws, sep) == JoinFrom(ws, sep, 1)

RECURSIVE FlattenSeqs(_)
FlattenSeqs(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeqs(Tail(ss))

\* the words of a list of groups, "_" read as a blank
FlatWords(gs) == FlattenSeqs([k \in 1..Len(gs) |-> Words(NoUnderscore(gs[k]))])

\* first position of p in s at or after i, 0 if there is none
RECURSIVE Find(_, _, _)
Find(s, p, i) ==
  IF i + Len(p) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i
  ELSE Find(s, p, i + 1)

\* do the texts ps occur in s, in order, without overlap, from position i on?
RECURSIVE InOrder(_, _, _, _)
InOrder(s, ps, k, i) ==
  IF k > Len(ps) THEN TRUE
  ELSE LET f == Find(s, ps[k], i) IN f # 0 /\ InOrder(s, ps, k + 1, f + Len(ps[k]))

\* how often x is in the sequence q
Occurs(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(q, r) == /\ Len(q) = Len(r)
                 /\ \A i \in 1..Len(q) : Occurs(q, q[i]) = Occurs(r, q[i])

RECURSIVE IsSubsequence(_, _, _, _)
IsSubsequence(q, r, i, j) ==
  IF i > Len(q) THEN TRUE
  ELSE IF j > Len(r) THEN FALSE
  ELSE IF q[i] = r[j] THEN IsSubsequence(q, r, i + 1, j + 1)
  ELSE IsSubsequence(q, r, i, j + 1)
=============================================================================
