------------------------------ MODULE Timeline ------------------------------
(* Instants, amounts of time and intervals.                                *)
(*                                                                         *)
(* A resolution is named by its number F of ticks per second (the library  *)
(* has 1, 1000 and 1000000; one resolution divides the next).              *)
(* An instant or interval is [F, n, s, u]: n days, s seconds of the day, u *)
(* ticks of the second, in normal form: 0 <= s < SPD, 0 <= u < F.          *)
(* An amount of time is [F, n, s, u] with parts of any sign and size: it   *)
(* denotes n days + s seconds + u ticks.                                   *)
(* HPD, MPH, SPM (hours per day, ...) are constants so that TLC can check  *)
(* everything exhaustively on a small clock.                               *)
EXTENDS Arith
CONSTANTS
  \* @type: Int;
  HPD,
  \* @type: Int;
  MPH,
  \* @type: Int;
  SPM
SPH == MPH * SPM
SPD == HPD * SPH

\* @type: (Int, Int, Int, Int) => {F: Int, n: Int, s: Int, u: Int};
Val(F, n, s, u) == [ F |-> F, n |-> n, s |-> s, u |-> u ]
\* @type: {F: Int, n: Int, s: Int, u: Int} => Bool;
IsNormal(x) == x.s >= 0 /\ x.s < SPD /\ x.u >= 0 /\ x.u < x.F

\* the normal form of n days + s seconds + u ticks
\* @type: (Int, Int, Int, Int) => {F: Int, n: Int, s: Int, u: Int};
Norm(F, n, s, u) ==
    LET s1 == s + (u \div F)
    IN  Val(F, n + (s1 \div SPD), s1 % SPD, u % F)
\* @type: {F: Int, n: Int, s: Int, u: Int} => {F: Int, n: Int, s: Int, u: Int};
NormV(a) == Norm(a.F, a.n, a.s, a.u)

\* an amount in a finer (or its own) resolution G: exact
\* @type: (Int, {F: Int, n: Int, s: Int, u: Int}) => {F: Int, n: Int, s: Int, u: Int};
Refine(G, a) == Val(G, a.n, a.s, a.u * Ratio(G, a.F))
\* a normal value in a coarser resolution G: the part below one tick dropped
\* @type: (Int, {F: Int, n: Int, s: Int, u: Int}) => {F: Int, n: Int, s: Int, u: Int};
Coarsen(G, x) == Val(G, x.n, x.s, x.u \div Ratio(x.F, G))
\* @type: (Int, {F: Int, n: Int, s: Int, u: Int}) => Bool;
Representable(G, x) == G >= x.F \/ x.u % Ratio(x.F, G) = 0

\* @type: (Int, {F: Int, n: Int, s: Int, u: Int}) => {F: Int, n: Int, s: Int, u: Int};
Cast(G, x) == IF G >= x.F THEN Refine(G, x) ELSE Coarsen(G, x)

\* @type: {F: Int, n: Int, s: Int, u: Int} => {F: Int, n: Int, s: Int, u: Int};
Neg(a) == Val(a.F, -a.n, -a.s, -a.u)
\* @type: {F: Int, n: Int, s: Int, u: Int} => Bool;
IsNeg(a) == NormV(a).n < 0

\* exact sum of two values, in the finer of the two resolutions
\* @type: ({F: Int, n: Int, s: Int, u: Int}, {F: Int, n: Int, s: Int, u: Int}) => {F: Int, n: Int, s: Int, u: Int};
Sum(a, b) ==
    LET G == Max2(a.F, b.F)
        p == Refine(G, a)
        r == Refine(G, b)
    IN  Norm(G, p.n + r.n, p.s + r.s, p.u + r.u)
\* @type: ({F: Int, n: Int, s: Int, u: Int}, {F: Int, n: Int, s: Int, u: Int}) => {F: Int, n: Int, s: Int, u: Int};
Diff(a, b) == Sum(a, Neg(b))

OneTick(F) == Val(F, 0, 0, 1)

\* The values of resolution F that may stand for the exact value e: e itself
\* if it can be represented, else the one just below or (when `both`) just
\* above.  ggdatetime truncates towards zero, so what is below or above depends on
\* the sign of what it truncates.
\* @type: (Int, {F: Int, n: Int, s: Int, u: Int}, Bool) => Set({F: Int, n: Int, s: Int, u: Int});
Rounded(F, e, both) ==
    IF Representable(F, e) THEN { Cast(F, e) }
    ELSE LET f == Coarsen(F, e)
         IN  IF both THEN { f, Sum(f, OneTick(F)) } ELSE { f }

\* ---- operations on a date-time x ---------------------------------------
\* add or remove (sgn = -1) the amount a with add_seconds / remove_seconds
\* @type: ({F: Int, n: Int, s: Int, u: Int}, {F: Int, n: Int, s: Int, u: Int}, Int) => Set({F: Int, n: Int, s: Int, u: Int});
AddSec(x, a, sgn) ==
    LET e == Sum(x, IF sgn = 1 THEN a ELSE Neg(a))
    IN  Rounded(x.F, e, e.n < x.n)          \* before x's own midnight
\* add(days, a), where a is in x's resolution or finer
\* @type: ({F: Int, n: Int, s: Int, u: Int}, Int, {F: Int, n: Int, s: Int, u: Int}) => Set({F: Int, n: Int, s: Int, u: Int});
AddDay(x, days, a) ==
    Rounded(x.F, Sum(Sum(x, Val(x.F, days, 0, 0)), a), IsNeg(a))
\* += interval
\* @type: ({F: Int, n: Int, s: Int, u: Int}, {F: Int, n: Int, s: Int, u: Int}) => {F: Int, n: Int, s: Int, u: Int};
AddIv(x, v) == Norm(x.F, x.n + v.n, x.s + v.s, x.u + v.u)

\* date (day number) + hours + minutes + amount a, built at resolution F <= a.F
\* @type: (Int, Int, Int, Int, {F: Int, n: Int, s: Int, u: Int}) => Set({F: Int, n: Int, s: Int, u: Int});
Build(F, n, h, mi, a) ==
    LET dn == n + (h \div HPD) + (mi \div (HPD * MPH))
        ds == (h % HPD) * SPH + (mi % (HPD * MPH)) * SPM
    IN  Rounded(F, Norm(a.F, dn + a.n, ds + a.s, a.u), IsNeg(a))

\* ---- observations --------------------------------------------------------
\* @type: ({F: Int, n: Int, s: Int, u: Int}, {F: Int, n: Int, s: Int, u: Int}) => Bool;
Lt(x, y) == \/ x.n < y.n
            \/ x.n = y.n /\ x.s < y.s
            \/ x.n = y.n /\ x.s = y.s /\ x.u < y.u
\* answers of ==, !=, <, <=, >, >=
\* @type: ({F: Int, n: Int, s: Int, u: Int}, {F: Int, n: Int, s: Int, u: Int}) => Seq(Bool);
Order(x, y) == << x = y, x # y, Lt(x, y), x = y \/ Lt(x, y), Lt(y, x), x = y \/ Lt(y, x) >>

\* hours, minutes, seconds and ticks of the time of day
\* @type: {F: Int, n: Int, s: Int, u: Int} => <<Int, Int, Int, Int>>;
Clock(x) == << x.s \div SPH, (x.s % SPH) \div SPM, x.s % SPM, x.u >>

=============================================================================
