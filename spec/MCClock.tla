------------------------------- MODULE MCClock ------------------------------
(* The calendar by itself: every day of a stretch of years follows the one   *)
(* before it, and what Resolve and InWindow give is the first such instant.  *)
EXTENDS Calendar, FiniteSets, TLC, IOUtils
VARIABLES theDay    \* a day number
YEARS == IF IOEnv.TIER = "thorough" THEN 2019..2026 ELSE 2023..2024
HOURS == IF IOEnv.TIER = "thorough" THEN {0, 23} ELSE {11}
DUE == IF IOEnv.TIER = "thorough" THEN {0, 6, 23, 24} ELSE {0, 24}
STEP == IF IOEnv.TIER = "thorough" THEN 31 ELSE 97
FirstDay == DayNo(CHOOSE y \in YEARS : \A z \in YEARS : y <= z, 1, 1)
LastDay == DayNo(CHOOSE y \in YEARS : \A z \in YEARS : y >= z, 12, 31)
Init == theDay = FirstDay
Next == theDay < LastDay /\ theDay' = theDay + 1
Spec == Init /\ [][Next]_theDay

Restores == LET x == Date(theDay) IN /\ DayNo(x.y, x.m, x.d) = theDay
                                 /\ x.m \in 1..12 /\ x.d \in 1..DaysIn(x.y, x.m)
\* the day after a date is the next of its month, or the first of the next month
Follows == [][LET x == Date(theDay)  z == Date(theDay') IN
              IF x.d < DaysIn(x.y, x.m) THEN z = [x EXCEPT !.d = x.d + 1]
              ELSE IF x.m < 12 THEN z = [y |-> x.y, m |-> x.m + 1, d |-> 1]
              ELSE z = [y |-> x.y + 1, m |-> 1, d |-> 1]]_theDay

Reads(t, d, h) == DayOfMonth(t) = d /\ HourOf(t) = h /\ MinuteOf(t) = 0
\* for every issue on this day: the first instant from its midnight on that reads the day and hour
ResolveFirst ==
  \A h \in HOURS : \A d \in 1..31 : \A w \in DUE :
    LET t == theDay * Day + h * 60 + 59
        r == Resolve(t, d, w)
        wanted == r - (w \div 24) * Day
    IN  /\ Reads(wanted, d, w % 24)
        /\ r >= MidnightOf(t)
        /\ ~\E k \in 0..((wanted - MidnightOf(t)) \div Day) : LET z == MidnightOf(t) + k * Day + (w % 24) * 60 IN z < wanted /\ Reads(z, d, w % 24)
\* the instant of a day that reads hh:mm, never before t and less than a day after
WindowFirst ==
  \A t \in {theDay * Day + k * STEP : k \in 0..(1439 \div STEP)} : \A w \in {0, 1, 11, 12, 22, 23, 24} : \A mi \in {0, 29, 59} :
    LET r == InWindow(t, w, mi) IN
    /\ HourOf(r) = w % 24 /\ MinuteOf(r) = mi /\ r >= t /\ r < t + Day
=============================================================================
