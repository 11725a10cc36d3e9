------------------------------ MODULE Threads -------------------------------
(* Client threads that use the library at the same time, each on objects of *)
(* its own.  A call takes several steps: it is entered with its argument,   *)
(* works on a place of intermediate results (a buffer, a table entry, a     *)
(* remembered value) and returns.  What the library promises: every return  *)
(* is what the call would give alone -- each thread's history is a          *)
(* behaviour of the sequential specification, whatever the interleaving.    *)
(* Place = "own": intermediate results belong to the call.                  *)
(*         "shared": one place for all calls.                               *)
(*         "kept": one place per thread that survives the call and is       *)
(*                 consulted by the next one, keyed by its argument         *)
(*         "badkey": the same, keyed by a part of the argument only         *)
EXTENDS Integers, Sequences
CONSTANTS Thread, Arg, MaxCalls, Place, Op(_), Key(_), NoPlace

VARIABLES pc, arg, place, ret, calls
vars == << pc, arg, place, ret, calls >>

Slot(t) == IF Place = "shared" THEN "all" ELSE t
Slots == Thread \cup { "all" }
None == [ k |-> NoPlace, v |-> << >> ]

Init == /\ pc = [ t \in Thread |-> "out" ] /\ arg = [ t \in Thread |-> NoPlace ]
        /\ place = [ s \in Slots |-> None ] /\ ret = [ t \in Thread |-> NoPlace ]
        /\ calls = [ t \in Thread |-> 0 ]

Enter(t) == /\ pc[t] = "out" /\ calls[t] < MaxCalls
            /\ \E a \in Arg : arg' = [ arg EXCEPT ![t] = a ]
            /\ pc' = [ pc EXCEPT ![t] = "work" ] /\ calls' = [ calls EXCEPT ![t] = @ + 1 ]
            /\ place' = IF Place \in { "kept", "badkey" } THEN place ELSE [ place EXCEPT ![Slot(t)] = None ]
            /\ ret' = [ ret EXCEPT ![t] = NoPlace ]
KeyOf(a) == IF Place = "badkey" THEN Key(a) ELSE a
Work(t) == /\ pc[t] = "work" /\ pc' = [ pc EXCEPT ![t] = "leave" ]
           /\ place' = IF Place \in { "kept", "badkey" } /\ place[Slot(t)].k = KeyOf(arg[t]) THEN place
                       ELSE [ place EXCEPT ![Slot(t)] = [ k |-> KeyOf(arg[t]), v |-> Op(arg[t]) ] ]
           /\ UNCHANGED << arg, ret, calls >>
Leave(t) == /\ pc[t] = "leave" /\ pc' = [ pc EXCEPT ![t] = "out" ]
            /\ ret' = [ ret EXCEPT ![t] = place[Slot(t)].v ]
            /\ UNCHANGED << arg, place, calls >>
Next == \E t \in Thread : Enter(t) \/ Work(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars

AsIfAlone == \A t \in Thread : (pc[t] = "out" /\ calls[t] > 0) => ret[t] = Op(arg[t])
=============================================================================
