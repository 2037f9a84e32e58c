------------------------------- MODULE MCRules ------------------------------
(* Flight rules, ceiling and CAVOK by themselves: every visibility and sky      *)
(* around the limits, changed step by step.                                  *)
EXTENDS Derive, IOUtils
VARIABLES theSight,     \* visibility in metres, or Unknown
          theSky,   \* sequence of cloud groups
          theRain   \* how many weathers
vars == <<theSight, theSky, theRain>>
Unknown == -1
Sights == IF IOEnv.TIER = "thorough" THEN {Unknown, 0, 799, 800, 1599, 1600, 4999, 5000, 7999, 8000, 9999, 10000, 20000}
          ELSE {Unknown, 799, 800, 1600, 5000, 8000, 10000}
Heights == IF IOEnv.TIER = "thorough" THEN {"004", "005", "009", "010", "029", "030", "049", "///"} ELSE {"001", "009", "030", "049", "///"}
Amounts == IF IOEnv.TIER = "thorough" THEN {"FEW", "BKN", "OVC", "VV"} ELSE {"FEW", "BKN", "VV"}
Layers == {a \o b \o c : a \in Amounts, b \in Heights, c \in {"", "CB"}} \cup {"SKC", "///"}
Groups == {l \in Layers : Matches("cloud", l)}
Read == [l \in Groups |-> Fields("cloud", l)]
Sense == [z \in Sights |-> IF z = Unknown THEN None ELSE QI(z)]
Vis(x) == Sense[x]
F(s) == [i \in 1..Len(s) |-> Read[s[i]]]
Init == theSight \in Sights /\ theSky = <<>> /\ theRain \in 0..1
Next == /\ Len(theSky) < 2
        /\ \E l \in Groups : theSky' = Append(theSky, l)
        /\ UNCHANGED <<theSight, theRain>>
Spec == Init /\ [][Next]_vars

FR(x, s) == FlightRules(Vis(x), CeilingBase(F(s)))
Worse == <<"VLIFR", "LIFR", "IFR", "MVFR", "VFR">>
Rank(r) == CHOOSE i \in 1..5 : Worse[i] = r
\* none only when nothing is known
\* worse visibility never makes better flight rules
\* knowing the visibility never makes better flight rules
Ordered == LET base == CeilingBase(F(theSky))
               rule(z) == FlightRules(Vis(z), base)
               mine == rule(theSight)
           IN  /\ (mine = NA) <=> (theSight = Unknown /\ base.k = "none")
               /\ \A z \in Sights : (theSight # Unknown /\ z # Unknown /\ z <= theSight) => Rank(rule(z)) <= Rank(mine)
               /\ theSight # Unknown /\ rule(Unknown) # NA => Rank(mine) <= Rank(rule(Unknown))
\* CAVOK means no ceiling, VFR and nothing missing
CavokMeans == Cavok(theRain, Vis(theSight), F(theSky)) => ~Ceiling(F(theSky)) /\ FR(theSight, theSky) = "VFR" /\ theRain = 0 /\ theSky # <<>> /\ theSight >= 10000
\* a further layer never makes CAVOK or takes a ceiling away, and only a theSky without layer to judge by gains flight rules by it
Grows == [][/\ (Ceiling(F(theSky)) => Ceiling(F(theSky')))
            /\ (theSky # <<>> /\ Cavok(theRain, Vis(theSight), F(theSky')) => Cavok(theRain, Vis(theSight), F(theSky)))
            /\ (FR(theSight, theSky') # FR(theSight, theSky) => CeilingBase(F(theSky)).k = "none")]_vars
=============================================================================
