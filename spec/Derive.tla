------------------------------- MODULE Derive -------------------------------
(* Ceiling, flight rules and CAVOK of a part of a report, from its prevailing*)
(* visibility (a quantity of metres) and the fields of its cloud groups.     *)
EXTENDS Decode

Fld(its) == [i \in 1..Len(its) |-> Fields(its[i].k, its[i].c)]
Cover(f) == IF f["cover"] = "0VC" THEN "OVC" ELSE f["cover"]
BaseKnown(f) == G(f, "height") # "" /\ G(f, "height") # "///"
Hundreds(f) == Val(G(f, "height"))

\* a broken or overcast layer with a known base of at most 1500 ft
Ceiling(cs) == \E i \in 1..Len(cs) : Cover(cs[i]) \in {"BKN", "OVC"} /\ BaseKnown(cs[i]) /\ Hundreds(cs[i]) <= 15

\* base in metres of the first broken, overcast or indefinite layer
CeilingBase(cs) ==
  LET is == {i \in 1..Len(cs) : Cover(cs[i]) \in {"BKN", "OVC", "VV"}} IN
  IF is = {} THEN None
  ELSE LET f == cs[CHOOSE i \in is : \A j \in is : i <= j] IN
       IF BaseKnown(f) THEN Q(Hundreds(f) * 3048, 100) ELSE None

Rules == << [n |-> "VLIFR", h |-> QI(60),  v |-> QI(800)],
            [n |-> "LIFR",  h |-> QI(150), v |-> QI(1600)],
            [n |-> "IFR",   h |-> QI(300), v |-> QI(5000)],
            [n |-> "MVFR",  h |-> QI(900), v |-> QI(8000)] >>

FlightRules(vis, base) ==
  IF vis.k = "none" /\ base.k = "none" THEN NA
  ELSE LET worse == {i \in 1..4 : (vis.k # "none" /\ QLess(vis, Rules[i].v)) \/ (base.k # "none" /\ QLess(base, Rules[i].h))} IN
       IF worse = {} THEN "VFR" ELSE Rules[CHOOSE i \in worse : \A j \in worse : i <= j].n

ClearCovers == {"SKC", "CLR", "NSC", "NCD"}
Cavok(nweathers, vis, cs) ==
  /\ nweathers = 0
  /\ vis.k # "none" /\ ~QLess(vis, QI(10000))
  /\ Len(cs) > 0
  /\ \A i \in 1..Len(cs) : /\ Cover(cs[i]) # "VV"
                           /\ G(cs[i], "type") \notin {"CB", "TCU"}
                           /\ (Cover(cs[i]) \in ClearCovers \/ BaseKnown(cs[i]))
                           /\ (BaseKnown(cs[i]) => Hundreds(cs[i]) >= 50)
=============================================================================
