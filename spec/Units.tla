-------------------------------- MODULE Units --------------------------------
(* Amounts of time on their own (seconds, milliseconds, microseconds, hours, *)
(* minutes): splitting, recombining, converting, exporting to floating point.*)
(* An amount is a Timeline value in normal form (n may be negative).         *)
EXTENDS Timeline

Recombine(F, h, m, s, u) ==
    Norm(F, (h \div HPD) + (m \div (HPD * MPH)),
            (h % HPD) * SPH + (m % (HPD * MPH)) * SPM + s, u)

IsTimeOfDay(a) == a.n = 0

\* <<h, m, s, u>> is a split of the amount a into clock parts
IsSplit(a, p) ==
    /\ Recombine(a.F, p[1], p[2], p[3], p[4]) = a
    /\ ~IsNeg(a) => /\ p[1] >= 0 /\ p[2] \in 0..(MPH - 1) /\ p[3] \in 0..(SPM - 1) /\ p[4] \in 0..(a.F - 1)
    /\ IsTimeOfDay(a) => p[1] \in 0..(HPD - 1)

\* d whole days and the remainder r (raw <<days, secs, ticks>>)
IsDaysAndRest(a, d, r) ==
    /\ r[1] = 0                                    \* less than a day, either way
    /\ Norm(a.F, d + r[1], r[2], r[3]) = a
    /\ ~IsNeg(a) => r[2] >= 0 /\ r[3] >= 0
WholeDays(a, d) ==
    IF ~IsNeg(a) THEN d = a.n ELSE d \in { a.n, a.n + 1 }
MoreThanDay(a) == a.n > 1 \/ (a.n = 1 /\ (a.s > 0 \/ a.u > 0))

\* towards G: exact when finer; otherwise the sub-tick part dropped (for a
\* negative amount, towards either neighbour)
Converted(G, a) ==
    IF G >= a.F THEN { Refine(G, a) } ELSE Rounded(G, a, IsNeg(a))

\* ---- floating point, read exactly as days, seconds, nano-, femtoseconds --
\* |x - e| <= t for x = <<d, s, ns, fs>>, e = <<d, s, ns>>, t = <<ns, fs>>
Close(x, e, t) ==
    LET dn == x[1] - e[1] IN
    /\ Abs(dn) <= 1
    /\ LET ds == dn * 86400 + x[2] - e[2] IN
       /\ Abs(ds) <= 1
       /\ LET ns == ds * 1000000000 + x[3] - e[3] IN
          IF t[1] > 0 THEN Abs(ns) <= t[1]
          ELSE Abs(ns) <= 1000 /\ Abs(ns * 1000000 + x[4]) <= t[2]
NanoOf(a) == << a.n, a.s, a.u * (1000000000 \div a.F) >>
\* A double holds 52 bits after the first: 19 picoseconds in a day, 0.22
\* femtoseconds in a second.  Allowed: nine of these (and the resolution of
\* the recorded value, 2^-60 days); four beyond two months.
DayTol(n) == IF Abs(n) >= 64 THEN << 1 + (Abs(n) \div 32), 0 >> ELSE << 0, (Abs(n) + 1) * 2 * 86400 + 100 >>
AmtDayTol(a) == IF a.n \in -63..63 THEN << 0, Abs(a.n * 86400 + a.s) * 2 + 100 >> ELSE DayTol(a.n)
SecTol(a) == IF a.n \in -63..63 THEN << 0, Abs(a.n * 86400 + a.s) * 2 + 4 >> ELSE DayTol(a.n)

\* ---- the full range of a long: sign and limbs of base 1000, lowest first ---
Trim(w) == LET nz == { i \in DOMAIN w : w[i] # 0 } IN
           IF nz = {} THEN << >> ELSE SubSeq(w, 1, CHOOSE i \in nz : \A j \in nz : j <= i)
Same(x, y) == /\ Trim(x.w) = Trim(y.w)
              /\ (x.neg = y.neg \/ Trim(x.w) = << >>)
Steps(F, G) == IF F = G THEN 0 ELSE IF F = 1000 * G \/ G = 1000 * F THEN 1 ELSE 2
RECURSIVE Zeros(_)
Zeros(k) == IF k = 0 THEN << >> ELSE << 0 >> \o Zeros(k - 1)
RECURSIVE Inc(_)
Inc(w) == IF w = << >> THEN << 1 >>
          ELSE IF w[1] = 999 THEN << 0 >> \o Inc(Tail(w)) ELSE << w[1] + 1 >> \o Tail(w)
WideCast(F, G, x, y) ==
    IF G >= F THEN Same(y, [ neg |-> x.neg, w |-> Zeros(Steps(F, G)) \o x.w ])
    ELSE LET k == Min2(Steps(F, G), Len(x.w))
             cut == [ neg |-> x.neg, w |-> SubSeq(x.w, k + 1, Len(x.w)) ]
             lost == Trim(SubSeq(x.w, 1, k)) # << >>
         IN  \/ Same(y, cut)
             \/ x.neg /\ lost /\ Same(y, [ neg |-> TRUE, w |-> Inc(cut.w) ])
=============================================================================
