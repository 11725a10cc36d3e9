----------------------------- MODULE TraceBase -----------------------------
(* Common part of the trace specifications.  A trace file holds one chunk   *)
(* per line: [id |-> string, ev |-> sequence of events recorded from the    *)
(* real code].  Every chunk is an independent behaviour; each trace         *)
(* specification starts in one of them (chosen in Init) and consumes its    *)
(* events in order with its own actions.  A chunk is rejected exactly when  *)
(* TLC reports a deadlock, with l pointing at the event that no action of   *)
(* the specification explains.                                              *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Chunks == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l

TBInit == c \in 1..Len(Chunks) /\ l = 1
Ev == Chunks[c].ev[l]
More == l <= Len(Chunks[c].ev)
IsEvent(a) == More /\ Ev.a = a /\ l' = l + 1 /\ c' = c
Finished == ~More /\ UNCHANGED << c, l >>
=============================================================================
