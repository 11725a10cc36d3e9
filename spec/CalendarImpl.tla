---------------------------- MODULE CalendarImpl ----------------------------
(* The integer algorithms of src/dtfund.cpp, transcribed with C++ division. *)
EXTENDS Gregorian

\* ngpt::cal2mjd(int,int,int)
ImplCal2Mjd(y, m, d) ==
    LET my == CDiv(m - 14, 12)
        iy == y + my
    IN  CDiv(1461 * (iy + 4800), 4) + CDiv(367 * (m - 2 - 12 * my), 12)
        - CDiv(3 * CDiv(iy + 4900, 100), 4) + d - 2432076

\* ngpt::modified_julian_day::to_ymd: first the century and the day in it ...
\* @type: Int => <<Int, Int>>;
ImplCentury(l0) ==
    LET n  == CDiv(4 * l0, 146097)
    IN  << n, l0 - CDiv(146097 * n + 3, 4) >>
\* ... then the date
\* @type: (Int, Int) => <<Int, Int, Int>>;
ImplInCentury(n, l1) ==
    LET i  == CDiv(4000 * (l1 + 1), 1461001)
        l2 == l1 - (CDiv(1461 * i, 4) - 31)
        k  == CDiv(80 * l2, 2447)
        dd == l2 - CDiv(2447 * k, 80)
        l3 == CDiv(k, 11)
    IN  << 100 * (n - 49) + i + l3, k + 2 - 12 * l3, dd >>
\* @type: Int => <<Int, Int, Int>>;
ImplToYmd(mjd) == LET p == ImplCentury(mjd + 68569 + 2400000 + 1) IN ImplInCentury(p[1], p[2])

\* @type: () => Seq(Seq(Int));
MonthDay == << << 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365 >>,
               << 0, 31, 60, 91, 121, 152, 182, 213, 244, 274, 305, 335, 366 >> >>
\* @type: Int => Seq(Int);
Tab(y) == MonthDay[IF Leap(y) THEN 2 ELSE 1]

\* ngpt::ymd_date::to_ydoy and ngpt::ydoy_date::to_ymd
\* @type: (Int, Int, Int) => <<Int, Int>>;
ImplToYdoy(y, m, d) == << y, Tab(y)[m] + d >>
\* @type: (Int, Int) => <<Int, Int, Int>>;
ImplDoyToYmd(y, k) ==
    LET guess == (k * 32) \div 1000
        more  == B2I(k - Tab(y)[guess + 2] > 0)
    IN  << y, guess + more + 1, k - Tab(y)[guess + more + 1] >>
\* the assertions compiled in under DEBUG
ImplDoyAsserts(y, k) ==
    LET guess == (k * 32) \div 1000
        more  == B2I(k - Tab(y)[guess + 2] > 0)
    IN  guess \in 0..11 /\ guess + more \in 0..11

\* ngpt::ydoy2mjd
ImplYdoy2Mjd(y, k) == ImplCal2Mjd(y, 1, 1) + k - 1
=============================================================================
