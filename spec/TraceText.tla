----------------------------- MODULE TraceText -----------------------------
(* Conformance of src/datetime_read.hpp, src/datetime_write.hpp,            *)
(* datetime::stringify and the month names with Text.tla.  errno is part of *)
(* the state (earlier calls may leave anything in it), and so is the locale *)
(* of the program (its decimal points and what it takes for the lower case  *)
(* of I); Reading, Named and what is written depend on neither.             *)
EXTENDS Text, TraceBase

VARIABLES err, loc
env == << err, loc >>
vars == << err, loc, c, l >>

Posix == [ point |-> 46, cpp |-> 46, lowI |-> 105 ]
Init == TBInit /\ err = 0 /\ loc = Posix

TErrno == IsEvent("errno") /\ err' = Ev.v /\ UNCHANGED loc
TLocale == IsEvent("locale") /\ loc' = [ point |-> Ev.point, cpp |-> Ev.cpp, lowI |-> Ev.lowI ] /\ UNCHANGED err

(* One text, read several times (with and without a place for the stop       *)
(* position, with different memory after the terminator).  outs: the distinct*)
(* outcomes; <<0>> refused with a std::exception, <<1, q, r, days, s, u>>     *)
(* a value; anything else is neither.                                        *)
Allowed(R, o) == \/ R.refuse /\ o = << 0 >>
                 \/ o[1] = 1 /\ o[4] = 0 /\ R.any /\ o[5] \in 0..(SPD - 1)
                 \/ o[1] = 1 /\ o[4] = 0 /\ << o[2], o[3], o[5], o[6] >> \in R.vals
TRead ==
    /\ IsEvent("read")
    /\ LET R == Reading(Ev.L, Ev.F, Ev.t) IN
       /\ Len(Ev.outs) = 1                  \* one outcome whatever the surroundings
       /\ Allowed(R, Ev.outs[1])
       /\ Ev.outs[1][1] = 0 \/ R.any \/ (Len(Ev.stops) = 1 /\ Ev.stops[1] \in R.stops)
    /\ UNCHANGED env

(* k texts of one layout, starting with t, spelling consecutive seconds       *)
(* (unit = "s") or ticks ("u"): each was read as the one before plus one.     *)
TReadRun ==
    /\ IsEvent("readrun")
    /\ LET R == Reading(Ev.L, Ev.F, Ev.t)
           o == Ev.outs[1]
       IN  /\ Len(Ev.outs) = 1 /\ ~R.refuse /\ Allowed(R, o)
           /\ Len(Ev.stops) = 1 /\ Ev.stops[1] \in R.stops
           /\ Ev.k >= 1
           /\ Ev.unit \in {"s", "u"}
           /\ IF Ev.unit = "s" THEN o[5] + Ev.k - 1 < SPD ELSE o[6] + Ev.k - 1 < Ev.F
    /\ UNCHANGED env

\* ---- C14 ---------------------------------------------------------------------
TWrite ==
    /\ IsEvent("write")
    /\ LET x == Val(Ev.F, 0, Ev.A[2], Ev.A[3])
           dt == DateOf(Ev.n)
           ck == Clock(x)
       IN  /\ Ev.texts = 1                      \* the same texts in every locale
           /\ IsStampF(Ev.hmfs, dt, ck, Ev.F, Ev.del)
           /\ IsStamp(Ev.hms, dt, ck, Ev.del)
           /\ Spells(Ev.str, dt, ck, Ev.F)
           \* read back with the matching reader
           /\ Ev.back = << 1, Ev.n[1], Ev.n[2], 0, x.s, x.u >>
           /\ Ev.back0 = << 1, Ev.n[1], Ev.n[2], 0, x.s, 0 >>
    /\ UNCHANGED env

(* k consecutive instants (one second or one tick apart) starting with the   *)
(* logged one, whose texts have the same shape and spell the next second or   *)
(* tick each (compared by the driver as fixed-width numbers), and read back   *)
TWriteRun ==
    /\ IsEvent("writerun")
    /\ LET x == Val(Ev.F, 0, Ev.A[2], Ev.A[3])
           dt == DateOf(Ev.n)
           ck == Clock(x)
       IN  /\ IsStampF(Ev.hmfs, dt, ck, Ev.F, Ev.del)
           /\ IsStamp(Ev.hms, dt, ck, Ev.del)
           /\ Ev.k >= 1
           /\ IF Ev.unit = "s" THEN ck[3] + Ev.k - 1 < SPM ELSE ck[4] + Ev.k - 1 < Ev.F
           /\ Ev.back = << 1, Ev.n[1], Ev.n[2], 0, x.s, x.u >>
    /\ UNCHANGED env

\* ---- C18 ---------------------------------------------------------------------
TMonth ==
    /\ IsEvent("mon")
    /\ LET ms == Named(Ev.t) IN
       Ev.r = IF ms = {} THEN 0 ELSE CHOOSE m \in ms : TRUE       \* 0: std::exception
    /\ UNCHANGED env
\* all three-character words over a set of characters: the accepted ones
CaseVariants(w) == { << a, b, z >> : a \in { w[1], w[1] - 32 }, b \in { w[2], w[2] - 32 }, z \in { w[3], w[3] - 32 } }
TMonthSweep ==
    /\ IsEvent("mon3")
    /\ Ev.odd = 0
    /\ Elems(Ev.got) =
         { << w[1], w[2], w[3], m >> : << w, m >> \in
             UNION { { << w, m >> : w \in { z \in CaseVariants(ShortName(m)) : Elems(z) \subseteq Elems(Ev.chars) } }
                     : m \in 1..12 } }
    /\ UNCHANGED env
TNames ==
    /\ IsEvent("names")
    /\ Ev.short = Capital(ShortName(Ev.m))
    /\ Ev.long = Capital(LongNames[Ev.m])
    /\ UNCHANGED env

Next == \/ TErrno \/ TLocale \/ TRead \/ TReadRun \/ TWrite \/ TWriteRun
        \/ TMonth \/ TMonthSweep \/ TNames
        \/ Finished /\ UNCHANGED env
Spec == Init /\ [][Next]_vars
=============================================================================
