------------------------------- MODULE Arith -------------------------------
(* Integer helpers.  TLA+'s \div and % round towards minus infinity, C++'s *)
(* towards zero; both are needed, since the specification speaks in the    *)
(* former and the code computes in the latter.                             *)
EXTENDS Integers, Sequences

Abs(a)     == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

\* C++ a / b and a % b, for b > 0
CDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
CMod(a, b) == a - b * CDiv(a, b)

\* how many ticks of the finer make one of the coarser
Ratio(a, b) == IF a >= b THEN a \div b ELSE b \div a

B2I(p) == IF p THEN 1 ELSE 0

\* elements of a sequence, as a set
\* @type: Seq(a) => Set(a);
Elems(s) == { s[i] : i \in DOMAIN s }
=============================================================================
