------------------------------- MODULE Wrapper -------------------------------
(* The fundamental types as registers holding an integer.  Values have 64    *)
(* bits, TLC's integers 32, so an integer is held in three limbs:            *)
(* <<h, m, l>> = h B^2 + m B + l with 0 <= m, l < B (h of any sign).         *)
EXTENDS Arith
CONSTANT B

IsLimbs(x) == x[2] \in 0..(B - 1) /\ x[3] \in 0..(B - 1)
LNorm(h, m, l) == LET m1 == m + (l \div B) IN << h + (m1 \div B), m1 % B, l % B >>
LAdd(x, y) == LNorm(x[1] + y[1], x[2] + y[2], x[3] + y[3])
LSub(x, y) == LNorm(x[1] - y[1], x[2] - y[2], x[3] - y[3])
LOne == << 0, 0, 1 >>
LLt(x, y) == \/ x[1] < y[1]
             \/ x[1] = y[1] /\ x[2] < y[2]
             \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
LOrder(x, y) == << x = y, x # y, LLt(x, y), x = y \/ LLt(x, y), LLt(y, x), x = y \/ LLt(y, x) >>

\* 2^63 - 1 and -2^63
LMax == << 9, 223372036, 854775807 >>
LMin == << -10, 776627963, 145224192 >>
\* the value of an object declared without one
Default(ty) == << 0, 0, CASE ty = "year" -> 1900
                          [] ty \in { "month", "gps_week", "day_of_month", "modified_julian_day" } -> 1
                          [] OTHER -> 0 >>

(* What the operation op on a register holding x, with operand y, leaves in   *)
(* the register (post) and what the expression is worth (ret).                *)
Effect(op, x, y) ==
    CASE op = "assign"  -> [ post |-> y, ret |-> y ]
      [] op = "plus="   -> [ post |-> LAdd(x, y), ret |-> LAdd(x, y) ]
      [] op = "minus="  -> [ post |-> LSub(x, y), ret |-> LSub(x, y) ]
      [] op = "++x"     -> [ post |-> LAdd(x, LOne), ret |-> LAdd(x, LOne) ]
      [] op = "x++"     -> [ post |-> LAdd(x, LOne), ret |-> x ]
      [] op = "--x"     -> [ post |-> LSub(x, LOne), ret |-> LSub(x, LOne) ]
      [] op = "x--"     -> [ post |-> LSub(x, LOne), ret |-> x ]
\* the operations whose value is the object itself
IsLvalue(op) == op \notin { "x++", "x--" }
=============================================================================
