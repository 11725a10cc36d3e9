------------------------------- MODULE MCUnits -------------------------------
(* Exhaustive model on a small clock: one amount under any history of       *)
(* additions, conversions and removals of days; the library's algorithms    *)
(* (transcribed) do what Units.tla says.                                    *)
EXTENDS Units, TimelineImpl, TLC
CONSTANTS Res, MaxTicks, Steps0

VARIABLES a, t            \* the amount, and the raw count the code holds
vars == << a, t >>
Of(F, v) == NormV(Val(F, 0, CDiv(v, F), CMod(v, F)))

Init == \E F \in Res : a = Of(F, 0) /\ t = 0
AddTicks == \E k \in Steps0, sgn \in {1, -1} :
    /\ t' = t + sgn * k
    /\ a' = Sum(a, Val(a.F, 0, 0, sgn * k))
Convert == \E G \in Res :
    /\ t' = ImplCastTo(a.F, G, t)
    /\ a' = Of(G, t')
RemoveDays ==
    /\ t' = CMod(t, MaxInDay(a.F))
    /\ a' = Of(a.F, t')
Next == (AddTicks \/ Convert \/ RemoveDays) /\ t' \in -MaxTicks..MaxTicks
Spec == Init /\ [][Next]_vars

Meaning == a = Of(a.F, t) /\ IsNormal(a)
SplitsOk == IsSplit(a, ImplClock(a.F, t))
DaysOk == LET d == CDiv(t, MaxInDay(a.F))
              r == CMod(t, MaxInDay(a.F))
          IN  /\ IsDaysAndRest(a, d, << 0, CDiv(r, a.F), CMod(r, a.F) >>)
              /\ WholeDays(a, d)
              /\ MoreThanDay(a) = (t > MaxInDay(a.F))
ConvertOk == \A G \in Res : Of(G, ImplCastTo(a.F, G, t)) \in Converted(G, a)
RoundTrip == \A G \in Res : G >= a.F => ImplCastTo(G, a.F, ImplCastTo(a.F, G, t)) = t
=============================================================================
