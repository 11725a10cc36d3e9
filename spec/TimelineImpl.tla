---------------------------- MODULE TimelineImpl ----------------------------
(* The algorithms of src/dtcalendar.hpp and src/dtfund.hpp, transcribed on  *)
(* plain tick counts with C++ division.  A date-time is [F, n, t]: day      *)
(* number and ticks of the day.                                             *)
EXTENDS Timeline

MaxInDay(F) == SPD * F
\* @type: {F: Int, n: Int, s: Int, u: Int} => Int;
Ticks(a) == (a.n * SPD + a.s) * a.F + a.u      \* amount as a tick count
\* @type: {F: Int, n: Int, s: Int, u: Int} => {F: Int, n: Int, t: Int};
Raw(x) == [ F |-> x.F, n |-> x.n, t |-> x.s * x.F + x.u ]
\* @type: {F: Int, n: Int, t: Int} => {F: Int, n: Int, s: Int, u: Int};
Abst(z) == [ F |-> z.F, n |-> z.n, s |-> z.t \div z.F, u |-> z.t % z.F ]

\* @type: (Int, Int, Int) => {F: Int, n: Int, t: Int};
ImplNormalize(F, n, t) ==
    LET n1 == n + CDiv(t, MaxInDay(F))
        t1 == CMod(t, MaxInDay(F))
    IN  IF t1 < 0 THEN [ F |-> F, n |-> n1 - 1, t |-> MaxInDay(F) + t1 ]
        ELSE [ F |-> F, n |-> n1, t |-> t1 ]

ImplCastTo(F, G, v) == IF F > G THEN CDiv(v, Ratio(F, G)) ELSE CDiv(v * G, F)

\* @type: ({F: Int, n: Int, t: Int}, {F: Int, n: Int, s: Int, u: Int}, Int) => {F: Int, n: Int, t: Int};
ImplAddSec(z, a, sgn) ==
    LET v == sgn * Ticks(a) IN
    IF a.F <= z.F THEN ImplNormalize(z.F, z.n, z.t + ImplCastTo(a.F, z.F, v))
    ELSE ImplNormalize(z.F, z.n, ImplCastTo(a.F, z.F, ImplCastTo(z.F, a.F, z.t) + v))

\* @type: ({F: Int, n: Int, t: Int}, Int, {F: Int, n: Int, s: Int, u: Int}) => {F: Int, n: Int, t: Int};
ImplAddDay(z, days, a) ==
    ImplNormalize(z.F, days + z.n, CDiv(Ticks(a), Ratio(a.F, z.F)) + z.t)

\* @type: ({F: Int, n: Int, t: Int}, Int) => {F: Int, n: Int, t: Int};
ImplCast(z, G) == ImplNormalize(G, z.n, ImplCastTo(z.F, G, z.t))

\* delta_sec: ticks of the finer resolution
\* @type: ({F: Int, n: Int, t: Int}, {F: Int, n: Int, t: Int}) => Int;
ImplDelta(z, w) ==
    LET G == Max2(z.F, w.F)
    IN  (z.n - w.n) * MaxInDay(G) + (ImplCastTo(z.F, G, z.t) - ImplCastTo(w.F, G, w.t))

\* @type: ({F: Int, n: Int, t: Int}, {F: Int, n: Int, t: Int}) => {F: Int, n: Int, t: Int};
ImplDdate(z, w) ==                                 \* delta_date, same resolution
    LET i == ImplNormalize(z.F, z.n - w.n, z.t - w.t) IN ImplNormalize(i.F, i.n, i.t)

\* @type: (Int, Int, Int, Int, {F: Int, n: Int, s: Int, u: Int}) => {F: Int, n: Int, t: Int};
ImplBuild(F, n, h, mi, a) ==
    ImplNormalize(F, n, CDiv(Ticks(a), Ratio(a.F, F)) + (mi * SPM + h * SPH) * F)

\* @type: ({F: Int, n: Int, t: Int}, Int) => {F: Int, n: Int, t: Int};
ImplDiv(z, k) ==
    LET nd  == CDiv(z.n, k)
        rem == CMod(z.n, k)
        ns  == rem * CDiv(MaxInDay(z.F), k) + CDiv(rem * CMod(MaxInDay(z.F), k) + z.t, k)
    IN  ImplNormalize(z.F, nd, ns)

\* to_hmsf on a tick count (may be negative or exceed a day)
\* @type: (Int, Int) => <<Int, Int, Int, Int>>;
ImplClock(F, t) ==
    LET hr == CDiv(t, SPH * F)
        mn == CDiv(CMod(t, SPH * F), SPM * F)
        sc == CDiv(CMod(CMod(t, SPH * F), SPM * F), F)
    IN  << hr, mn, sc, t - ((hr * MPH + mn) * SPM + sc) * F >>
=============================================================================
