----------------------------- MODULE Gregorian -----------------------------
(* The proleptic Gregorian calendar as ggdatetime's users understand it,   *)
(* in closed form.  Day numbers are Modified Julian Days.  TLC's integers  *)
(* have 32 bits but the library's day numbers have 64, so a day number n   *)
(* is held as the pair <<q, r>> with n = 146097 q + r, 0 <= r < 146097     *)
(* (146097 days are exactly 400 Gregorian years).                          *)
EXTENDS Arith, FiniteSets

Cycle == 146097                       \* days in 400 years

Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
YearLen(y) == IF Leap(y) THEN 366 ELSE 365

\* @type: () => Seq(Int);
MonthLens == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
MonthLen(y, m) == IF m = 2 /\ Leap(y) THEN 29 ELSE MonthLens[m]

\* days of a common year before the first of month m
\* @type: () => Seq(Int);
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBefore(y, m) == Before[m] + B2I(m > 2 /\ Leap(y))

IsDate(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= MonthLen(y, m)
IsDoy(y, k)     == k >= 1 /\ k <= YearLen(y)

Doy(y, m, d) == DaysBefore(y, m) + d
MonthOfDoy(y, k) ==
    CHOOSE m \in 1..12 : DaysBefore(y, m) < k /\ k <= DaysBefore(y, m) + MonthLen(y, m)

\* the following day, by carrying only
\* @type: (Int, Int, Int) => <<Int, Int, Int>>;
NextDate(y, m, d) ==
    IF d < MonthLen(y, m) THEN << y, m, d + 1 >>
    ELSE IF m < 12 THEN << y, m + 1, 1 >>
    ELSE << y + 1, 1, 1 >>

\* ---- day numbers -------------------------------------------------------
\* @type: (Int, Int) => <<Int, Int>>;
NormDay(q, r) == << q + (r \div Cycle), r % Cycle >>

\* days from 1 January of year 400e to 1 January of year 400e + z
YearDays(z) == 365 * z + ((z + 3) \div 4) - ((z + 99) \div 100) + ((z + 399) \div 400)

FirstDay == -2432045                  \* MJD of 1 March -4800, where the conversions begin
Jan1Y0 == -678941                     \* MJD of 1 January of year 0

DayNo(y, m, d) ==
    NormDay(y \div 400, Jan1Y0 + YearDays(y % 400) + Doy(y, m, d) - 1)
DayNoOfDoy(y, k) == NormDay(y \div 400, Jan1Y0 + YearDays(y % 400) + k - 1)

\* @type: (<<Int, Int>>, Int) => <<Int, Int>>;
AddDays(n, k) == NormDay(n[1], n[2] + k)

\* the year/day-of-year of day number n
\* @type: <<Int, Int>> => <<Int, Int>>;
YearDoyOf(n) ==
    LET t  == NormDay(n[1], n[2] - Jan1Y0)
        g  == t[2]                                  \* 0 .. 146096
        z0 == (g * 4) \div 1461                     \* first guess of the year in the cycle
        z  == CHOOSE v \in { z0 - 1, z0, z0 + 1 } :
                 v >= 0 /\ v < 400 /\ YearDays(v) <= g /\ g < YearDays(v + 1)
    IN  << 400 * t[1] + z, g - YearDays(z) + 1 >>

\* @type: <<Int, Int>> => <<Int, Int, Int>>;
DateOf(n) ==
    LET yd == YearDoyOf(n)
        m  == MonthOfDoy(yd[1], yd[2])
    IN  << yd[1], m, yd[2] - DaysBefore(yd[1], m) >>

\* plain (single integer) forms, for day numbers that fit 31 bits
\* @type: <<Int, Int>> => Int;
Flat(n) == n[1] * Cycle + n[2]
Split(n) == NormDay(0, n)

\* @type: (<<Int, Int>>, <<Int, Int>>) => Bool;
DayLE(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

\* ---- GPS weeks: 146097 = 7 * 20871 -------------------------------------
GpsEpoch == 44244                     \* 6 January 1980, a Sunday
WeeksPerCycle == 20871
\* a week number w is held as <<q, r>> with w = 20871 q + r, 0 <= r < 20871
\* @type: (Int, Int) => <<Int, Int>>;
NormWeek(q, r) == << q + (r \div WeeksPerCycle), r % WeeksPerCycle >>
\* @type: <<Int, Int>> => <<Int, Int>>;
GpsWeek(n) == NormWeek(n[1], (n[2] - GpsEpoch) \div 7)
\* @type: <<Int, Int>> => Int;
Dow(n)     == (n[2] - GpsEpoch) % 7   \* 0 = Sunday

\* ---- TAI-UTC (IERS Bulletin C): months on whose first day it steps up ----
\* @type: () => Seq(<<Int, Int>>);
LeapSecondMonths == <<
  <<1972,7>>, <<1973,1>>, <<1974,1>>, <<1975,1>>, <<1976,1>>, <<1977,1>>, <<1978,1>>,
  <<1979,1>>, <<1980,1>>, <<1981,7>>, <<1982,7>>, <<1983,7>>, <<1985,7>>, <<1988,1>>,
  <<1990,1>>, <<1991,1>>, <<1992,7>>, <<1993,7>>, <<1994,7>>, <<1996,1>>, <<1997,7>>,
  <<1999,1>>, <<2006,1>>, <<2009,1>>, <<2012,7>>, <<2015,7>>, <<2017,1>> >>

NLeap == Len(LeapSecondMonths)
TaiUtcOfMonth(y, m) ==                \* for y >= 1972
    10 + Cardinality({ i \in 1..NLeap :
            LET c == LeapSecondMonths[i] IN c[1] < y \/ (c[1] = y /\ c[2] <= m) })
\* @type: <<Int, Int>> => Int;
TaiUtc(n) == LET dt == DateOf(n) IN TaiUtcOfMonth(dt[1], dt[2])
=============================================================================
