------------------------------ MODULE Quotient ------------------------------
(* Division of an interval by a whole number. *)
EXTENDS Timeline

\* longest v with k v <= x, for an x that is not negative and k >= 1
RECURSIVE Times(_, _)
Times(x, k) == IF k = 0 THEN Val(x.F, 0, 0, 0)
               ELSE LET h == Times(x, k \div 2)
                        d == Sum(h, h)
                    IN  IF k % 2 = 1 THEN Sum(d, x) ELSE d
IsQuotient(v, x, k) == /\ ~IsNeg(v)
                       /\ ~Lt(x, Times(v, k))
                       /\ Lt(x, Times(Sum(v, OneTick(x.F)), k))
=============================================================================
