----------------------------- MODULE MCCalendar -----------------------------
(* Exhaustive model: every day of a 400-year cycle (all that the calendar   *)
(* can do), cut in 16 stretches of 25 years.                                    *)
EXTENDS Calendar, CalendarImpl, TLC
CONSTANTS StartYears, NDays

VARIABLES i, y0
vars == << day, i, y0 >>

Start(StartYear) == [ y |-> StartYear, m |-> 3, d |-> 1, n |-> DayNo(StartYear, 3, 1),
           doy |-> 60 + B2I(Leap(StartYear)), dow |-> Dow(DayNo(StartYear, 3, 1)),
           week |-> GpsWeek(DayNo(StartYear, 3, 1)),
           tai |-> IF StartYear < 1972 THEN 0 ELSE TaiUtcOfMonth(StartYear, 3) ]

Init == /\ y0 \in StartYears /\ day = Start(y0) /\ i = 0
Next == \/ i < NDays /\ Tick /\ i' = i + 1 /\ y0' = y0
        \/ i = NDays /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

RealDate == IsDate(day.y, day.m, day.d) /\ IsDoy(day.y, day.doy)
            /\ day.dow \in 0..6 /\ day.n[2] \in 0..(Cycle - 1)

\* day numbers count days
CountsDays == Flat(day.n) = Flat(Start(y0).n) + i

\* C01: the closed forms are the odometer, in both directions
ClosedForms == /\ DayNo(day.y, day.m, day.d) = day.n
               /\ DateOf(day.n) = << day.y, day.m, day.d >>
               /\ DayRec(day.n) = day
\* C02
ClosedDoy == /\ Doy(day.y, day.m, day.d) = day.doy
             /\ DayNoOfDoy(day.y, day.doy) = day.n
             /\ YearDoyOf(day.n) = << day.y, day.doy >>
\* C01, C02: and so are the library's algorithms
ImplAgrees == /\ ImplCal2Mjd(day.y, day.m, day.d) = Flat(day.n)
              /\ ImplToYmd(Flat(day.n)) = << day.y, day.m, day.d >>
              /\ ImplToYdoy(day.y, day.m, day.d) = << day.y, day.doy >>
              /\ ImplDoyToYmd(day.y, day.doy) = << day.y, day.m, day.d >>
              /\ ImplDoyAsserts(day.y, day.doy)
              /\ ImplYdoy2Mjd(day.y, day.doy) = Flat(day.n)
\* C09: weeks
WeekAgrees == day.n = NormDay(day.week[1], GpsEpoch + 7 * day.week[2] + day.dow)
\* C10: never decreasing, and constant within a month
TaiStep == [][ day'.tai - day.tai \in {0, 1} \/ (day.tai = 0 /\ day'.tai = 10) ]_vars
TaiMonthly == [][ day'.m = day.m => day'.tai = day.tai ]_vars
\* the composed step used on traces is the iterate of the basic one
SkipIsTicks ==
    /\ CanSkip(day, 1) /\ SkipLast(day, 1) = day
    /\ (CanSkip(day, 2) => SkipLast(day, 2) = NextDay(day))
    /\ \A k \in {2, 3, 7, 28, 31} :
          CanSkip(day, k) => SkipLast(day, k) = NextDay(SkipLast(day, k - 1))
=============================================================================
