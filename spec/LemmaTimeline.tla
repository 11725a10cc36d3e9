--------------------------- MODULE LemmaTimeline ---------------------------
(* Checked by Apalache with the real clock (24 h, 60 min, 60 s), for every  *)
(* pair of resolutions F0, T0 and ALL integers: any date-time x, y of       *)
(* resolution F0, any w of resolution T0, any amount of resolution T0 with  *)
(* parts of any sign and size, any number of days, hours and minutes.  One  *)
(* step from an arbitrary normal-form state: these are inductive, so they   *)
(* hold along every history.  MCTimeline is the same on a small clock       *)
(* with whole histories.                                                    *)
EXTENDS TimelineImpl
CONSTANTS
  \* @type: Int;
  F0,
  \* @type: Int;
  T0,
  \* @type: Set(Int);
  DivBy
VARIABLES
  \* @type: Int;
  xn,
  \* @type: Int;
  xs,
  \* @type: Int;
  xu,
  \* @type: Int;
  yn,
  \* @type: Int;
  ys,
  \* @type: Int;
  yu,
  \* @type: Int;
  wn,
  \* @type: Int;
  ws,
  \* @type: Int;
  wu,
  \* @type: Int;
  an,
  \* @type: Int;
  as,
  \* @type: Int;
  au,
  \* @type: Int;
  k,
  \* @type: Int;
  hh,
  \* @type: Int;
  mm

Init == /\ xn \in Int /\ xs \in Int /\ xu \in Int /\ yn \in Int /\ ys \in Int /\ yu \in Int
        /\ wn \in Int /\ ws \in Int /\ wu \in Int /\ an \in Int /\ as \in Int /\ au \in Int
        /\ k \in Int /\ hh \in Int /\ mm \in Int
        /\ xs >= 0 /\ xs < SPD /\ xu >= 0 /\ xu < F0
        /\ ys >= 0 /\ ys < SPD /\ yu >= 0 /\ yu < F0
        /\ ws >= 0 /\ ws < SPD /\ wu >= 0 /\ wu < T0
Next == UNCHANGED << xn, xs, xu, yn, ys, yu, wn, ws, wu, an, as, au, k, hh, mm >>

vx == Val(F0, xn, xs, xu)
vy == Val(F0, yn, ys, yu)
vw == Val(T0, wn, ws, wu)
va == Val(T0, an, as, au)
Fin == Max2(F0, T0)
\* the exact length, in ticks of the finer resolution
\* @type: {F: Int, n: Int, s: Int, u: Int} => Int;
Total(v) == ((v.n * SPD + v.s) * v.F + v.u) * Ratio(Fin, v.F)

\* ---- the specification itself -------------------------------------------
\* normal forms are unique and norming keeps the length
NormExact == /\ IsNormal(NormV(va)) /\ Total(NormV(va)) = Total(va)
             /\ (vx = vy) = (Total(vx) = Total(vy))
SumExact == /\ Total(Sum(vx, va)) = Total(vx) + Total(va) /\ IsNormal(Sum(vx, va))
DiffExact == /\ Total(Diff(vx, vw)) = Total(vx) - Total(vw)
             /\ Diff(vw, vx) = NormV(Neg(Diff(vx, vw)))
TakeBack == AddIv(vy, Diff(vx, vy)) = vx
OrderExact == LET o == Order(vx, vy) IN
              /\ o[1] = (Total(vx) = Total(vy)) /\ o[3] = (Total(vx) < Total(vy)) /\ o[5] = (Total(vx) > Total(vy))
              /\ o[2] = ~o[1] /\ o[4] = ~o[5] /\ o[6] = ~o[3]
CastExact == LET c == Cast(T0, vx) IN
             /\ IsNormal(c)
             /\ T0 >= F0 => Total(c) = Total(vx) /\ Cast(F0, c) = vx
             /\ T0 < F0 => Total(c) <= Total(vx) /\ Total(vx) - Total(c) < Ratio(F0, T0)

\* ---- the library's algorithms --------------------------------------------
ImplAdd == LET r == Abst(ImplAddSec(Raw(vx), va, 1)) IN
           /\ IsNormal(r) /\ r.F = F0
           /\ T0 <= F0 => Total(r) = Total(vx) + Total(va)
           /\ T0 > F0 => /\ Total(r) - (Total(vx) + Total(va)) < Ratio(F0, T0)
                         /\ (Total(vx) + Total(va)) - Total(r) < Ratio(F0, T0)
ImplRemove == LET r == Abst(ImplAddSec(Raw(vx), va, -1)) IN
           /\ IsNormal(r)
           /\ T0 <= F0 => Total(r) = Total(vx) - Total(va)
ImplAddDays == T0 >= F0 =>
           LET r == Abst(ImplAddDay(Raw(vx), k, va))
               e == Total(vx) + Total(va) + k * SPD * T0
           IN  /\ IsNormal(r)
               /\ T0 = F0 => Total(r) = e
               /\ Total(r) - e < Ratio(F0, T0) /\ e - Total(r) < Ratio(F0, T0)
ImplCastOk == Abst(ImplCast(Raw(vx), T0)) = Cast(T0, vx)
ImplDeltaOk == ImplDelta(Raw(vx), Raw(vw)) = Total(vx) - Total(vw)
ImplDdateOk == LET r == Abst(ImplDdate(Raw(vx), Raw(vy))) IN IsNormal(r) /\ Total(r) = Total(vx) - Total(vy)
ImplBuildOk == T0 >= F0 =>
           LET r == Abst(ImplBuild(F0, xn, hh, mm, va))
               e == Total(va) + ((xn * HPD + hh) * MPH + mm) * SPM * T0
           IN  /\ IsNormal(r)
               /\ T0 = F0 => Total(r) = e
               /\ Total(r) - e < Ratio(F0, T0) /\ e - Total(r) < Ratio(F0, T0)
ImplClockOk == ImplClock(F0, Raw(vx).t) = Clock(vx)
\* a split of any amount recombines to it
ImplSplitOk == LET c == ImplClock(F0, k) IN
           /\ ((c[1] * MPH + c[2]) * SPM + c[3]) * F0 + c[4] = k
           /\ k >= 0 => c[1] >= 0 /\ c[2] >= 0 /\ c[2] < MPH /\ c[3] >= 0 /\ c[3] < SPM /\ c[4] >= 0 /\ c[4] < F0
\* conversion of an amount: exact towards finer (and back), else within one tick
ImplConvertOk == LET c == ImplCastTo(F0, T0, k) IN
           /\ T0 >= F0 => c = k * Ratio(T0, F0) /\ ImplCastTo(T0, F0, c) = k
           /\ T0 < F0 => /\ Abs(c * Ratio(T0, F0) - k) < Ratio(T0, F0)
                         /\ k >= 0 => c * Ratio(T0, F0) <= k
\* whole days and the rest
ImplDaysOk == LET q == CDiv(k, MaxInDay(F0))
                  r == CMod(k, MaxInDay(F0))
              IN  q * MaxInDay(F0) + r = k /\ Abs(r) < MaxInDay(F0) /\ (k >= 0 => q >= 0 /\ r >= 0)
\* division of an interval
ImplDivOk == xn >= 0 => \A q \in DivBy :
                LET r == Abst(ImplDiv(Raw(vx), q)) IN
                /\ IsNormal(r) /\ r.F = F0
                /\ q * Total(r) <= Total(vx) /\ Total(vx) < q * (Total(r) + Ratio(Fin, F0))
=============================================================================
