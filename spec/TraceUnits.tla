----------------------------- MODULE TraceUnits -----------------------------
(* Conformance of the second types, hours and minutes of src/dtfund.hpp,    *)
(* and of the floating-point exports, with Units.tla.  Four amount registers.*)
EXTENDS Units, TraceBase

VARIABLE reg
vars == << reg, c, l >>
Init == TBInit /\ reg = [ i \in 0..3 |-> Val(1, 0, 0, 0) ]

Amt(T, p) == NormV(Val(T, p[1], p[2], p[3]))
Set(r, p, allowed) ==
    \E w \in allowed : Amt(w.F, p) = w /\ reg' = [ reg EXCEPT ![r] = w ]

TSet == IsEvent("aset") /\ Set(Ev.r, Ev.post, { Amt(Ev.F, Ev.A) })
\* (hours, minutes, amount) and (hours, minutes, decimal seconds)
TClock == /\ IsEvent("ahms")
          /\ LET a == Amt(Ev.T, Ev.A)
                 e == Norm(Ev.T, a.n + (Ev.h \div HPD) + (Ev.mi \div (HPD * MPH)),
                                 a.s + (Ev.h % HPD) * SPH + (Ev.mi % (HPD * MPH)) * SPM, a.u)
             IN  Set(Ev.r, Ev.post, Rounded(Ev.F, e, IsNeg(a)))
TAdd == /\ IsEvent("aadd")
        /\ reg[Ev.r].F = reg[Ev.r2].F
        /\ Set(Ev.r3, Ev.post, { IF Ev.sgn = 1 THEN Sum(reg[Ev.r], reg[Ev.r2]) ELSE Diff(reg[Ev.r], reg[Ev.r2]) })
TCast == IsEvent("acast") /\ Set(Ev.r2, Ev.post, Converted(Ev.G, reg[Ev.r]))
TSplit == /\ IsEvent("asplit")
          /\ LET a == reg[Ev.r] IN
             /\ IsSplit(a, Ev.hms)
             /\ IsDaysAndRest(a, Ev.days, Ev.rest)
             /\ WholeDays(a, Ev.todays)
             /\ Ev.more = MoreThanDay(a)
          /\ UNCHANGED reg
TRemove == /\ IsEvent("ardays")
           /\ IsDaysAndRest(reg[Ev.r], Ev.days, Ev.post)
           /\ reg' = [ reg EXCEPT ![Ev.r] = Amt(@.F, Ev.post) ]
\* k consecutive amounts, one second or tick apart: the splits of the later
\* ones differ from the first in the last clock part only, by one each
TSplitRun == /\ IsEvent("asplitrun")
             /\ LET a == Amt(Ev.F, Ev.A) IN
                /\ ~IsNeg(a)
                /\ IsSplit(a, Ev.hms)
                /\ IsDaysAndRest(a, Ev.days, Ev.rest)
                /\ WholeDays(a, Ev.todays)
                /\ Ev.k >= 1 /\ Ev.unit \in { "s", "u" }
                /\ IF Ev.unit = "s" THEN Ev.hms[3] + Ev.k - 1 < SPM ELSE Ev.hms[4] + Ev.k - 1 < Ev.F
                \* conversions of the first, which the others follow
                /\ \A p \in Elems(Ev.cv) : Amt(p[1], << p[2], p[3], p[4] >>) \in Converted(p[1], a)
                /\ Ev.unit = "u" => (\A p \in Elems(Ev.cv) : p[1] < Ev.F => (a.u % (Ev.F \div p[1])) + Ev.k - 1 < Ev.F \div p[1])
             /\ UNCHANGED reg
\* milliseconds::resolve_sec
TResolve == /\ IsEvent("aresolve")
            /\ LET a == reg[Ev.r]
                   f == Ev.frac
               IN  /\ Amt(1, Ev.sec) \in Converted(1, a)
                   \* whole seconds + fraction = amount
                   /\ Close(LET e == Norm(1000000000, Amt(1, Ev.sec).n + f[1], Amt(1, Ev.sec).s + f[2], f[3])
                            IN << e.n, e.s, e.u, f[4] >>, NanoOf(a), SecTol(a))
                   \* and the fraction is one: less than a second
                   /\ (IsNeg(a) \/ (f[1] = 0 /\ f[2] = 0))
            /\ UNCHANGED reg
\* fractional days and seconds
TFloat == /\ IsEvent("afloat")
          /\ Close(Ev.fd, NanoOf(reg[Ev.r]), AmtDayTol(reg[Ev.r]))
          /\ Close(Ev.fs, NanoOf(reg[Ev.r]), SecTol(reg[Ev.r]))
          /\ UNCHANGED reg
\* as_mjd of a date-time and of an interval with the same parts
TMjd == /\ IsEvent("mjdf")
        /\ LET a == NormV(Val(Ev.F, Ev.n + Ev.A[1], Ev.A[2], Ev.A[3])) IN
           /\ Len(Ev.v) > 0
           /\ \A x \in Elems(Ev.v) : Close(x, NanoOf(a), DayTol(a.n))
        /\ UNCHANGED reg
TJd == /\ IsEvent("jd")
       /\ Ev.v = << Ev.n + 2400000, 43200, 0, 0 >> /\ Ev.exact
       /\ UNCHANGED reg
THours == /\ IsEvent("hrs")
          /\ Ev.days * HPD + Ev.rest = Ev.h
          /\ Abs(Ev.rest) < HPD /\ (Ev.h >= 0 => Ev.rest >= 0)
          /\ UNCHANGED reg
TMinutes == /\ IsEvent("mins")
            /\ Ev.hours * MPH + Ev.rest = Ev.m
            /\ Abs(Ev.rest) < MPH /\ (Ev.m >= 0 => Ev.rest >= 0)
            /\ UNCHANGED reg
\* whole days in the largest long: limbs of base 10^9
TMax == /\ IsEvent("maxd")
        /\ Ev.v = CASE Ev.F = 1       -> << 106751, 991167300 >>
                    [] Ev.F = 1000    -> << 106, 751991167 >>
                    [] Ev.F = 1000000 -> << 0, 106751991 >>
        /\ UNCHANGED reg
\* the published constants
TConsts == /\ IsEvent("consts")
           /\ Ev.day = << 1, 0, 0, 0 >>
           /\ Ev.jy = << 365, 21600, 0, 0 >> /\ Ev.jc = << 36525, 0, 0, 0 >>
           /\ Ev.j2km = << 51544, 43200, 0, 0 >> /\ Ev.mjd0 = << 2400000, 43200, 0, 0 >>
           /\ Ev.j2k = << 2400000 + 51544 + 1, 0, 0, 0 >>
           /\ Close(Ev.tt, << 0, 32, 184000000 >>, << 0, 10 >>)
           /\ Ev.gps0 = 44244 /\ Ev.y1901 = 15385            \* 6 January 1980, 1 January 1901
           /\ Ev.mid1 = 86400 /\ Ev.mid1000 = 86400 /\ Ev.mid1000000 = 86400
           /\ Ev.fac = << 1, 1000, 1000000, 1, 1000, 1000000 >>
           /\ UNCHANGED reg
TWide == /\ IsEvent("wcast")
         /\ WideCast(Ev.F, Ev.G, Ev.x, Ev.y)
         /\ UNCHANGED reg

Next == \/ TSet \/ TClock \/ TAdd \/ TCast \/ TSplit \/ TRemove \/ TSplitRun \/ TResolve \/ TFloat
        \/ TMjd \/ TJd \/ THours \/ TMinutes \/ TMax \/ TConsts \/ TWide
        \/ Finished /\ UNCHANGED reg
Spec == Init /\ [][Next]_vars
=============================================================================
