---------------------------- MODULE TraceTypes ------------------------------
(* Conformance of the headers with Types.tla: each event says whether the   *)
(* compiler accepts one expression over two types.                          *)
EXTENDS Types, TraceBase
vars == << c, l >>
TExpr == /\ IsEvent("expr")
         /\ Ev.l \in Kinds /\ Ev.r \in Kinds
         /\ Forbidden(Ev.form, Ev.l, Ev.r) => ~Ev.ok
         /\ Offered(Ev.form, Ev.l, Ev.r) => Ev.ok
Next == TExpr \/ Finished
Spec == TBInit /\ [][Next]_vars
=============================================================================
