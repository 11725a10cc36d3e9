------------------------------ MODULE MCTypes -------------------------------
(* What the typing discipline is for, checked over every program of at most *)
(* MaxLen expressions: a value that starts as one quantity is carried from  *)
(* variable to variable by any expression that is not forbidden; it may end *)
(* up in a variable of another quantity only where the program says so, by  *)
(* an explicit conversion to a coarser second type.                         *)
EXTENDS Types
CONSTANT MaxLen
VARIABLES orig, cur, casts, n
vars == << orig, cur, casts, n >>
\* expressions through which the value of b reaches a variable of kind a
Carry == { "assign", "pluseq", "minuseq", "plus", "minus", "convert", "construct" }
Init == orig \in Quantities /\ cur = orig /\ casts = 0 /\ n = 0
Flow(f, a) == /\ ~Forbidden(f, a, cur)
              /\ a # cur => f \in { "assign", "convert", "construct", "pluseq", "minuseq" }
              /\ cur' = a
              /\ casts' = IF f = "construct" /\ a # cur THEN casts + 1 ELSE casts
Next == /\ n < MaxLen /\ n' = n + 1 /\ UNCHANGED orig
        /\ \E f \in Carry, a \in Quantities :
                 \* quantities are built from a quantity of another kind only where offered
                 /\ (f = "construct" /\ a # cur) => Offered(f, a, cur)
                 /\ Flow(f, a)
Spec == Init /\ [][Next]_vars
NoAccidentalMix == cur # orig => /\ casts > 0
                                 /\ orig \in SecTypes /\ cur \in SecTypes /\ Coarser(cur, orig)
\* the rules never contradict each other
Consistent == \A f \in Combine \cup { "convert", "construct", "make_dt", "make_iv" } :
                \A a, b \in Kinds : ~(Forbidden(f, a, b) /\ Offered(f, a, b))
=============================================================================
