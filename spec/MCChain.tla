------------------------------- MODULE MCChain ------------------------------
(* The changes of a TAF by themselves: every chain of up to LONGEST changes, *)
(* closed one after the other as Report does it.                             *)
EXTENDS Report, IOUtils
LONGEST == IF IOEnv.TIER = "thorough" THEN 6 ELSE 4
Starts0 == IF IOEnv.TIER = "thorough" THEN {60, 240} ELSE {60, 180, 330}
From0 == 0
Until0 == Day
Body == [part |-> "taf", code |-> <<>>, items |-> <<>>, unparsed |-> <<>>, dates |-> [InitialDates(0) EXCEPT !.vfrom = From0, !.vuntil = Until0]]
\* a change of its kind that starts at s; only an FM runs until the end
Change(ind, s) == [Body EXCEPT !.part = "change", !.dates = [PartDates("change", Body.dates) EXCEPT !.ind = ind, !.from = s, !.until = IF IsFM(ind) THEN Until0 ELSE s + 120,
                                                             !.per = IF IsFM(ind) THEN "" ELSE "p"]]
Inds == {"FM", "BECMG", "TEMPO", "PROB30", NULL}
CInit == /\ kind = "TAF" /\ phase = "read" /\ part = "change" /\ code = <<>> /\ groups = <<>> /\ used = 0 /\ items = <<>> /\ unparsed = <<>>
         /\ dates = Body.dates /\ todo = <<>> /\ finished = <<Body>>
Add(i, s) == LET c == Change(i, s) IN finished' = Append(CloseFM(finished, c.dates), c)
CNext == /\ Len(finished) <= LONGEST
         /\ \E i \in Inds, s \in Starts0 : Add(i, s)
         /\ UNCHANGED <<kind, phase, part, code, groups, used, items, unparsed, dates, todo>>
CSpec == CInit /\ [][CNext]_rvars

\* what C12 says of every chain
Ended == \A j \in 2..Len(finished) :
           LET x == finished[j].dates
               after == {n \in (j + 1)..Len(finished) : finished[n].dates.ind \in {"FM", "BECMG"}}
           IN  IF x.ind = "FM" THEN x.until = (IF after = {} THEN Until0 ELSE finished[Min(after)].dates.from - 60)
               ELSE x.until = x.from + 120
\* an added change alters at most the end of one FM
OnlyEnds == [][/\ Len(finished') = Len(finished) + 1
               /\ Cardinality({j \in 1..Len(finished) : finished'[j] # finished[j]}) <= 1
               /\ \A j \in 1..Len(finished) : finished'[j] = finished[j] \/ (IsFM(finished[j].dates.ind) /\ finished'[j] = [finished[j] EXCEPT !.dates.until = finished'[j].dates.until])]_rvars
=============================================================================
