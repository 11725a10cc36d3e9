--------------------------- MODULE LemmaCalendar ---------------------------
(* Checked by Apalache for every integer.  MCCalendar goes through every    *)
(* day of one 400-year cycle; these lemmas carry what it finds to every      *)
(* other cycle: one cycle later, the specification and the library's        *)
(* algorithms (transcribed in CalendarImpl) give the same month and day,    *)
(* 400 years and 146097 days further.                                       *)
EXTENDS CalendarImpl
VARIABLES
  \* @type: Int;
  vy,
  \* @type: Int;
  vm,
  \* @type: Int;
  vd,
  \* @type: Int;
  vn,
  \* @type: Int;
  vr

Init == /\ vy \in Int /\ vm \in 1..12 /\ vd \in 1..31 /\ IsDate(vy, vm, vd)
        /\ vn \in Int /\ vr \in Int
Next == UNCHANGED << vy, vm, vd, vn, vr >>

Defined == vy > -4800 \/ (vy = -4800 /\ vm >= 3)

\* the specification
LeapPeriod == Leap(vy + 400) = Leap(vy)
DayNoPeriod == LET a == DayNo(vy, vm, vd)
                   b == DayNo(vy + 400, vm, vd)
               IN  b[1] = a[1] + 1 /\ b[2] = a[2]
DayNoNormal == LET a == DayNo(vy, vm, vd) IN a[2] >= 0 /\ a[2] < Cycle
\* one day later, one day number further (in any year)
NextIsNext == LET a == DayNo(vy, vm, vd)
                  nd == NextDate(vy, vm, vd)
              IN  DayNo(nd[1], nd[2], nd[3]) = AddDays(a, 1)

\* ngpt::cal2mjd
CalPeriod == Defined => ImplCal2Mjd(vy + 400, vm, vd) = ImplCal2Mjd(vy, vm, vd) + Cycle
\* ngpt::modified_julian_day::to_ymd, in its two stages
CenturyPeriod == vn >= 0 => LET a == ImplCentury(vn)
                                b == ImplCentury(vn + Cycle)
                            IN  b[1] = a[1] + 4 /\ b[2] = a[2]
InCenturyPeriod == LET a == ImplInCentury(vn, vr)
                       b == ImplInCentury(vn + 4, vr)
                   IN  b[1] = a[1] + 400 /\ b[2] = a[2] /\ b[3] = a[3]
\* day-of-year conversions look at the year only through Leap, and day 1's number
DoyPeriod == Tab(vy + 400) = Tab(vy)
\* GPS week and day of the week name the day, and only it
\* @type: <<Int, Int>> => Bool;
WeekNames(n) == /\ n = NormDay(GpsWeek(n)[1], GpsEpoch + 7 * GpsWeek(n)[2] + Dow(n))
                /\ Dow(n) >= 0 /\ Dow(n) < 7
WeekPeriod == (vr >= 0 /\ vr < Cycle) => WeekNames(<< vn, vr >>)
=============================================================================
