------------------------------ MODULE MCHelpers ------------------------------
(* The cutting and joining of texts by themselves: every sentence of a few   *)
(* words grown word by word, cut in every way at every pair of keywords.     *)
EXTENDS Helpers, IOUtils
VARIABLE said
Thorough == IOEnv.TIER = "thorough"
Vocabulary == {"FM", "FM1", "TEMPO", "A", "XA", "PROB30"}
JoinVocabulary == {"1", "1/2SM", "WS", "R10", "RWY10L", "ALL", "RWY", "PROB30", "TEMPO", "11"}
Keys == {"FM", "TEMPO", "A", "PROB30 TEMPO"}
Sides == {"", "left", "right", "both"}
Lists == {<<>>} \cup {<<a>> : a \in Keys} \cup {<<a, b>> : a \in Keys, b \in Keys}
Init == said = <<>>
Next == /\ Len(said) < IF Thorough THEN 4 ELSE 3
        /\ \E w \in Vocabulary \cup JoinVocabulary : said' = Append(said, w)
Spec == Init /\ [][Next]_said

Text == Join(said, " ")
Ways == {[kws |-> k, count |-> c, space |-> p] : k \in Lists, c \in 0..2, p \in Sides}
InDomain == \A i \in 1..Len(said) : said[i] \in Vocabulary
CutsLoseNothing == InDomain => \A w \in Ways : NothingLost(Text, Split(Text, w.kws, w.count, w.space), w.space)
NoKeywordNoCut  == \A p \in Sides, c \in 0..2 : Split(Text, <<>>, c, p) = <<Text>>
Counted == InDomain => \A k \in Keys, c \in 1..2, p \in Sides : Len(Split(Text, <<k>>, c, p)) <= c + 1
\* fewer cuts give longer pieces: the first pieces are the same
Ordered == InDomain => \A k \in Keys, p \in Sides :
             LET one == Split(Text, <<k>>, 1, p)  all == Split(Text, <<k>>, 0, p)
             IN  one[1] = all[1] /\ (Len(one) = 1 <=> Len(all) = 1)

Seps == [i \in 1..Len(said) |-> IF i = 1 THEN "" ELSE " "]
Ops == {"visibility", "windshear", "change"}
\* joining changes blanks only (and the letters of RWY), and a second time nothing
Same(a, b) == Without(Without(a, " "), "_") = Without(Without(b, " "), "_")
Joining == \A op \in Ops :
             LET t == Joined(op, said, Seps) IN
             /\ op # "windshear" => Same(t, Text)
             /\ Len(t) <= Len(Text)
             /\ Joined(op, Words(t), [i \in 1..Len(Words(t)) |-> IF i = 1 THEN "" ELSE " "]) = t
\* the helpers do not disturb each other
Commute == LET lay(t) == [i \in 1..Len(Words(t)) |-> IF i = 1 THEN "" ELSE " "]
               do(op, t) == Joined(op, Words(t), lay(t))
           IN  \A a \in Ops, b \in Ops : do(a, do(b, Text)) = do(b, do(a, Text))
=============================================================================
