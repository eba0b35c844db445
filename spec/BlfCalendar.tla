---------------------------- MODULE BlfCalendar -----------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar as BLF time stamps use it: calendar    *)
(* fields, weekday counted from Sunday, days since 1970-01-01, UTC.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
DaysIn(y, m) == IF m = 2 /\ IsLeap(y) THEN 29 ELSE MonthDays[m]

ValidDate(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
ValidTime(h, mi, s) == h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59

\* days before year y, counted from 0001-01-01
DaysBeforeYear(y) == LET p == y - 1 IN p * 365 + p \div 4 - p \div 100 + p \div 400
DaysBeforeMonth == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DayNumber(y, m, d) ==       \* 0001-01-01 (a Monday) is day 1
  DaysBeforeYear(y) + DaysBeforeMonth[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0) + d

Weekday(y, m, d) == DayNumber(y, m, d) % 7     \* 0 = Sunday
Epoch == DayNumber(1970, 1, 1)

\* year, month, day of day number n
YearOf(n) == CHOOSE y \in (n \div 366)..((n \div 365) + 1) : DaysBeforeYear(y) < n /\ n <= DaysBeforeYear(y + 1)
DateOf(n) ==
  LET y == YearOf(n)
      r == n - DaysBeforeYear(y)
      before(m) == DaysBeforeMonth[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
      m == CHOOSE k \in 1..12 : before(k) < r /\ (k = 12 \/ r <= before(k + 1))
  IN  <<y, m, r - before(m)>>

\* nearest millisecond of a microsecond count, without carrying into the second
NearestMs(us, ms) ==
  /\ ms \in 0..999
  /\ LET err(k) == IF 1000 * k > us THEN 1000 * k - us ELSE us - 1000 * k
     IN  IF us > 999000 THEN ms = 999
         ELSE err(ms) <= 500

\* the eight fields of a time stamp for an instant given as day number, second of
\* the day and microsecond:  st = <<y, mo, dow, d, h, mi, s, ms>>
IsStamp(st, day, sec, us) ==
  LET dt == DateOf(day) IN
  /\ st[1] = dt[1] /\ st[2] = dt[2] /\ st[4] = dt[3]
  /\ st[3] = day % 7
  /\ st[5] = sec \div 3600 /\ st[6] = (sec \div 60) % 60 /\ st[7] = sec % 60
  /\ NearestMs(us, st[8])
=============================================================================
