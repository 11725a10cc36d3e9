------------------------------ MODULE MCWrapper ------------------------------
(* The limb arithmetic of Wrapper.tla is integer arithmetic, and the         *)
(* operators obey the usual laws; exhaustively for a small base.             *)
EXTENDS Wrapper, TLC
CONSTANT Max
VARIABLES x, y, last
vars == << x, y, last >>
Int3(p) == (p[1] * B + p[2]) * B + p[3]
Of(v) == LNorm(0, 0, v)
Ops == { "assign", "plus=", "minus=", "++x", "x++", "--x", "x--" }

Init == x = Of(0) /\ y = Of(0) /\ last = "none"
Do(op) == /\ x' = Effect(op, x, y).post
          /\ Int3(x') \in -Max..Max
          /\ y' = y /\ last' = op
Swap == x' = y /\ y' = x /\ last' = "swap"
Next == Swap \/ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

Limbs == IsLimbs(x) /\ Of(Int3(x)) = x
Arithmetic ==
    /\ Int3(LAdd(x, y)) = Int3(x) + Int3(y)
    /\ Int3(LSub(x, y)) = Int3(x) - Int3(y)
    /\ LLt(x, y) = (Int3(x) < Int3(y))
Laws ==
    /\ Effect("minus=", Effect("plus=", x, y).post, y).post = x
    /\ Effect("--x", Effect("++x", x, y).post, y).post = x
    /\ Effect("x++", x, y).post = Effect("++x", x, y).post
    /\ LET o == LOrder(x, y) IN B2I(o[1]) + B2I(o[3]) + B2I(o[5]) = 1
=============================================================================
