------------------------------ MODULE Calendar ------------------------------
(* Instants are minutes since 0000-03-01 00:00 of the proleptic Gregorian    *)
(* calendar (fits TLC's integers up to year 4000).                           *)
EXTENDS Naturals, Integers, Text

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

\* day number of a date
DayNo(y, m, d) ==
  LET y1 == IF m <= 2 THEN y - 1 ELSE y
      mp == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
  IN  365 * y1 + y1 \div 4 - y1 \div 100 + y1 \div 400 + doy

\* the date of a day number
Date(n) ==
  LET era == n \div 146097
      doe == n % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN  [y |-> yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m |-> m, d |-> d]

Day == 1440
At(y, m, d, h, mi) == DayNo(y, m, d) * Day + h * 60 + mi
MidnightOf(t) == (t \div Day) * Day
DayOfMonth(t) == Date(t \div Day).d
HourOf(t) == (t % Day) \div 60
MinuteOf(t) == t % 60

\* "YYYY-MM-DD HH:MM:SS"
Stamp(t) == LET x == Date(t \div Day) IN
  Pad(x.y, 4) \o "-" \o Pad(x.m, 2) \o "-" \o Pad(x.d, 2) \o " " \o Pad(HourOf(t), 2) \o ":" \o Pad(MinuteOf(t), 2) \o ":00"

RECURSIVE NextDay(_, _)
\* midnight of the first day on or after instant t's day whose day of month is d
NextDay(t, d) == LET m == MidnightOf(t) IN
                 IF DayOfMonth(m) = d THEN m ELSE NextDay(m + Day, d)

\* first instant, on or after the day of t, that reads day d, hour h (24 = next midnight)
Resolve(t, d, h) == NextDay(t, d) + h * 60

\* the instant in the two hours from t on that reads hh:mm (hh = 24 is 0)
InWindow(t, hh, mm) ==
  LET want == (hh % 24) * 60 + mm
      off == (want + Day - (t % Day)) % Day
  IN  t + off
WithinWindow(t, hh, mm) == InWindow(t, hh, mm) <= t + 120
=============================================================================
