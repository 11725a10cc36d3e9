----------------------------- MODULE MCTimeline -----------------------------
(* Exhaustive model on a small clock.  x is a date-time register, tot the   *)
(* exact instant in finest ticks it should denote (ghost), y an earlier     *)
(* value.  The history of operations is whatever TLC does.   *)
EXTENDS TimelineImpl, Quotient, TLC, FiniteSets
CONSTANTS Res, MaxDay, PosAmounts   \* tick counts used as arguments, and their negatives

VARIABLES x, tot, y
vars == << x, tot, y >>

Amounts == PosAmounts \cup { -t : t \in PosAmounts }

Fine == CHOOSE f \in Res : \A g \in Res : g <= f

Exact(z) == ((z.n * SPD + z.s) * z.F + z.u) * (Fine \div z.F)
Amount(F, t) == Val(F, 0, CDiv(t, F), CMod(t, F))
Values(F) == { Val(F, n, s, u) : n \in -1..1, s \in 0..(SPD - 1), u \in 0..(F - 1) }

Init == /\ \E F \in Res : x = Val(F, 0, 0, 0)
        /\ tot = Exact(x) /\ y = x

\* own or coarser amounts: C05
Add == \E T \in Res, t \in Amounts, sgn \in {1, -1} :
          /\ T <= x.F
          /\ x' \in AddSec(x, Amount(T, t), sgn)
          /\ tot' = tot + sgn * t * (Fine \div T)
          /\ y' = x
AddDays == \E d \in -1..1, t \in Amounts :
          /\ x' \in AddDay(x, d, Amount(x.F, t))
          /\ tot' = tot + (d * SPD * x.F + t) * (Fine \div x.F)
          /\ y' = x
\* += interval, the interval being the difference to the previous value: C08
AddInterval == /\ y.F = x.F
               /\ x' = AddIv(x, Diff(x, y))
               /\ tot' = tot + (Exact(x) - Exact(y))
               /\ y' = x
\* finer amounts: C06
AddFiner == \E T \in Res, t \in Amounts, sgn \in {1, -1} :
          /\ T > x.F
          /\ x' \in AddSec(x, Amount(T, t), sgn)
          /\ tot' = Exact(x') /\ y' = x
ChangeRes == \E G \in Res : /\ x' = Cast(G, x) /\ tot' = Exact(x')
                            /\ y' = x'

Bound == x.n \in -MaxDay..MaxDay
Next == (Add \/ AddDays \/ AddInterval \/ AddFiner \/ ChangeRes) /\ Bound'
Spec == Init /\ [][Next]_vars

\* C04, C05: normal form, and exactly start + sum of everything added
NormalForm == IsNormal(x) /\ IsNormal(y)
ExactInstant == Exact(x) = tot
\* C08
TakeBack == y.F = x.F => AddIv(y, Diff(x, y)) = x

\* ---- the library's algorithms do what the specification says -----------
ImplArith ==
    /\ Abst(Raw(x)) = x
    /\ \A T \in Res, t \in Amounts, sgn \in {1, -1} :
         LET a == Amount(T, t) IN
         /\ Abst(ImplAddSec(Raw(x), a, sgn)) \in AddSec(x, a, sgn)
         /\ T <= x.F => Cardinality(AddSec(x, a, sgn)) = 1
         /\ T >= x.F => \A d \in {-1, 0, 2} :
                           Abst(ImplAddDay(Raw(x), d, a)) \in AddDay(x, d, a)
         /\ T >= x.F => \A h \in {0, HPD - 1, HPD + 1, -1}, mi \in {0, MPH + 1} :
                           Abst(ImplBuild(x.F, x.n, h, mi, a)) \in Build(x.F, x.n, h, mi, a)
    /\ \A G \in Res : Abst(ImplCast(Raw(x), G)) = Cast(G, x)
ImplObs ==
    /\ ImplClock(x.F, Raw(x).t) = Clock(x)
    /\ \A F \in Res : \A w \in Values(F) :
         /\ NormV(Amount(Max2(F, x.F), ImplDelta(Raw(x), Raw(w)))) = Diff(x, w)
         /\ F = x.F => Abst(ImplDdate(Raw(x), Raw(w))) = Diff(x, w)
    /\ x.n >= 0 => \A k \in 1..5 : IsQuotient(Abst(ImplDiv(Raw(x), k)), x, k)

\* ---- laws ---------------------------------------------------------------
\* C07: the order is total, the six operators are consistent, later is larger
OrderLaws == \A w \in Values(x.F) :
    LET o == Order(x, w) IN
    /\ o[1] = ~o[2] /\ o[3] = ~o[6] /\ o[5] = ~o[4]
    /\ B2I(o[1]) + B2I(o[3]) + B2I(o[5]) = 1
    /\ o[3] = (Exact(x) < Exact(w)) /\ o[1] = (Exact(x) = Exact(w))
\* C08: exact, antisymmetric, additive
DiffLaws == \A F \in Res : \A w \in Values(F) :
    /\ Exact(Diff(x, w)) = Exact(x) - Exact(w)
    /\ Diff(w, x) = NormV(Neg(Diff(x, w)))
    /\ Sum(Diff(x, y), Diff(y, w)) = Refine(Max2(Max2(x.F, y.F), F), Diff(x, w))
\* C06
CastLaws == \A G \in Res :
    /\ (G >= x.F => Cast(x.F, Cast(G, x)) = x /\ Exact(Cast(G, x)) = Exact(x))
    /\ (G < x.F => /\ Exact(Cast(G, x)) <= Exact(x)
                   /\ Exact(x) - Exact(Cast(G, x)) < Fine \div G)
=============================================================================
