------------------------------ MODULE Calendar ------------------------------
(* The calendar as an odometer: the state is one day with every name it    *)
(* has (date, day number, day of year, day of week, GPS week, TAI-UTC),    *)
(* and the only basic step moves to the following day by carrying, as one  *)
(* would on paper.  Nothing here computes a day number from a date: that   *)
(* the closed forms of Gregorian.tla, and the library's own integer        *)
(* algorithms transcribed in CalendarImpl, agree with this odometer on     *)
(* every day is what TLC checks over a full 400-year cycle.                *)
EXTENDS Gregorian

VARIABLE day
\* [y, m, d, n, doy, dow, week, tai]; n = <<q, r>>

DayRec(n) ==
    LET dt == DateOf(n) IN
    [ y |-> dt[1], m |-> dt[2], d |-> dt[3], n |-> n,
      doy |-> Doy(dt[1], dt[2], dt[3]), dow |-> Dow(n), week |-> GpsWeek(n),
      tai |-> IF dt[1] < 1972 THEN 0 ELSE TaiUtcOfMonth(dt[1], dt[2]) ]

\* the next day, by carrying only
NextDay(x) ==
    LET nd == NextDate(x.y, x.m, x.d) IN
    [ y |-> nd[1], m |-> nd[2], d |-> nd[3],
      n |-> IF x.n[2] = Cycle - 1 THEN << x.n[1] + 1, 0 >> ELSE << x.n[1], x.n[2] + 1 >>,
      doy |-> IF nd[2] = 1 /\ nd[3] = 1 THEN 1 ELSE x.doy + 1,
      dow |-> IF x.dow = 6 THEN 0 ELSE x.dow + 1,
      week |-> IF x.dow = 6 THEN NormWeek(x.week[1], x.week[2] + 1) ELSE x.week,
      tai |-> IF nd = << 1972, 1, 1 >> THEN 10
              ELSE IF nd[3] = 1 /\ \E i \in 1..NLeap :
                         LeapSecondMonths[i] = << nd[1], nd[2] >>
                   THEN x.tai + 1 ELSE x.tai ]

Tick == day' = NextDay(day)

\* k consecutive Ticks within the month (and within the 400-year cycle), k >= 1,
\* counted from the present day: the effect on the names of the day is affine.
CanSkip(x, k) == /\ k >= 1
                 /\ x.d + k - 1 <= MonthLen(x.y, x.m)
                 /\ x.n[2] + k - 1 < Cycle
SkipLast(x, k) == [ x EXCEPT !.d = @ + k - 1, !.doy = @ + k - 1,
                             !.n = << @[1], @[2] + k - 1 >>,
                             !.dow = (@ + k - 1) % 7,
                             !.week = NormWeek(@[1], @[2] + ((x.dow + k - 1) \div 7)) ]
Skip(k) == CanSkip(day, k) /\ day' = NextDay(SkipLast(day, k))

Seek(n) == day' = DayRec(n)
=============================================================================
