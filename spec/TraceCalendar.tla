--------------------------- MODULE TraceCalendar ---------------------------
(* Conformance of src/dtfund.cpp, src/dat.cpp and the calendar side of      *)
(* src/dtcalendar.hpp with Calendar.tla.                                    *)
(*                                                                          *)
(* "walk" events are run-length compressed: the driver visits every single  *)
(* day of a range and starts a new event whenever anything it observes      *)
(* stops being affine (next day number, day of month, day of year ...), so  *)
(* an event states what was observed at its first day, and that the last    *)
(* components went up by one per day for k days.  The specification checks  *)
(* the first day and that k steps of the odometer really are affine.        *)
(* Observations are sets: one member per distinct answer among all entry    *)
(* points of the library that answer the same question.                     *)
EXTENDS Calendar, TraceBase

vars == << day, c, l >>

Init == TBInit /\ day = DayRec(<< 0, 0 >>)

TSeek == IsEvent("seek") /\ Seek(Ev.n)

\* C01
TWalkYmd ==
    /\ IsEvent("walk_ymd")
    /\ Ev.n = day.n
    /\ Elems(Ev.ymd) = { << day.y, day.m, day.d >> }
    /\ Elems(Ev.nn) = { day.n }
    /\ Skip(Ev.k)

\* C02
TWalkDoy ==
    /\ IsEvent("walk_doy")
    /\ Ev.n = day.n
    /\ Elems(Ev.ydoy) = { << day.y, day.doy >> }
    /\ Elems(Ev.ymd) = { << day.y, day.m, day.d >> }
    /\ Elems(Ev.nn) = { day.n }
    /\ Skip(Ev.k)

\* C09
TWalkGps ==
    /\ IsEvent("walk_gps")
    /\ Ev.n = day.n
    /\ Elems(Ev.week) = { day.week }
    /\ Elems(Ev.dow) = { day.dow }
    /\ Elems(Ev.sow) = { << day.dow, 0, 0 >> }
    /\ Elems(Ev.nn) = { day.n }
    /\ Ev.k >= 1 /\ day.dow + Ev.k <= 7
    /\ day.n[2] + Ev.k <= Cycle
    /\ Seek(AddDays(day.n, Ev.k))

\* C10
TWalkTai ==
    /\ IsEvent("walk_tai")
    /\ Ev.n = day.n
    /\ day.y >= 1972
    /\ Elems(Ev.tai) = { day.tai }
    /\ Ev.k >= 1
    /\ TaiUtc(AddDays(day.n, Ev.k - 1)) = day.tai
    /\ Seek(AddDays(day.n, Ev.k))

\* C03.  Runs of accepted values among a list of probes.
TYear ==
    /\ IsEvent("year")
    /\ Elems(Ev.leap) = { Leap(Ev.y) }
    /\ Elems(Ev.doys) = { << << 1, YearLen(Ev.y) >> >> }
    /\ UNCHANGED day

TMonth ==
    /\ IsEvent("month")
    /\ LET ok == Ev.m \in 1..12 IN
       /\ Ev.mvalid = ok
       /\ Elems(Ev.valid) = { IF ok THEN << << 1, MonthLen(Ev.y, Ev.m) >> >> ELSE << >> }
       /\ Elems(Ev.accepted) = Elems(Ev.valid)
       /\ Ev.odd = 0                  \* everything else threw a std::exception
       /\ Elems(Ev.first) = IF ok /\ Ev.y >= -4799 THEN { DayNo(Ev.y, Ev.m, 1) } ELSE {}
    /\ UNCHANGED day

TWeekValid ==
    /\ IsEvent("weekvalid")
    /\ Ev.valid = (Ev.neg = FALSE)
    /\ UNCHANGED day

Next == \/ TSeek \/ TWalkYmd \/ TWalkDoy \/ TWalkGps \/ TWalkTai
        \/ TYear \/ TMonth \/ TWeekValid
        \/ Finished /\ UNCHANGED day

Spec == Init /\ [][Next]_vars
=============================================================================
