-------------------------------- MODULE Slots -------------------------------
(* The reading order of each part of a report: a group takes the first slot  *)
(* still ahead that accepts it.                                              *)
EXTENDS Grammar

Times(k, n) == [i \in 1..n |-> k]
Contents(wind, vis) == <<wind, vis>> \o Times("weather", 3) \o Times("cloud", 4)

Table == [
  metar  |-> <<"type", "station", "time", "modifier", "wind", "windvar", "vis", "minvis">> \o Times("rvr", 3) \o Times("weather", 3)
             \o Times("cloud", 4) \o <<"temps", "press", "press", "recent">> \o Times("shear", 3) \o <<"sea", "rwystate">>,
  trend  |-> <<"trendind", "trendtime", "trendtime">> \o Contents("wind", "vis"),
  taf    |-> <<"type", "amdcor", "station", "time", "nil", "valid", "cnl">> \o Contents("tafwind", "tafvis") \o Times("taftemp", 4),
  change |-> <<"changeind", "valid">> \o Contents("tafwind", "vis")]

\* the slot a group takes when the slots up to `used` are behind, 0 if none
RECURSIVE SlotFrom(_, _, _)
SlotFrom(t, i, g) == IF i > Len(t) THEN 0
                     ELSE IF Matches(t[i], g) THEN i ELSE SlotFrom(t, i + 1, g)
SlotOf(part, used, g) == SlotFrom(Table[part], used + 1, g)
=============================================================================
