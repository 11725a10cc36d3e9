---------------------------- MODULE TraceWrapper ----------------------------
(* Conformance of the eleven fundamental types of src/dtfund.hpp with        *)
(* Wrapper.tla.  Three registers of every type.                              *)
EXTENDS Wrapper, TraceBase

VARIABLE reg
vars == << reg, c, l >>
Types == { "year", "month", "gps_week", "day_of_month", "day_of_year", "modified_julian_day",
           "hours", "minutes", "seconds", "milliseconds", "microseconds" }
Init == TBInit /\ reg = [ t \in Types |-> [ i \in 0..2 |-> << 0, 0, 0 >> ] ]

Put(t, i, v) == reg' = [ reg EXCEPT ![t][i] = v ]
\* constructor or literal
TMake == /\ IsEvent("wset")
         /\ Ev.post = Ev.v
         /\ Put(Ev.ty, Ev.i, Ev.post)
\* no value given: the documented one
TDefault == /\ IsEvent("wdef")
            /\ Ev.post = Default(Ev.ty) /\ Ev.again = Default(Ev.ty)
            /\ Put(Ev.ty, Ev.i, Ev.post)
\* the first and last of the days there are
TLimits == /\ IsEvent("wlim") /\ Ev.v = << LMax, LMin >> /\ UNCHANGED reg
\* a GPS week exists from week 0 on
TValid == /\ IsEvent("wvalid")
          /\ Ev.ok = ~LLt(reg["gps_week"][Ev.i], << 0, 0, 0 >>)
          /\ UNCHANGED reg
\* any operation on register i; the operand is an integer (j = -1) or register j
TOp == /\ IsEvent("wop")
       /\ LET x == reg[Ev.ty][Ev.i]
              y == IF Ev.j = -1 THEN Ev.v ELSE reg[Ev.ty][Ev.j]
              e == Effect(Ev.op, x, y)
          IN  /\ Ev.post = e.post
              /\ Ev.ret = e.ret
              /\ IsLvalue(Ev.op) => Ev.same
              \* a same-type operand is left alone
              /\ Ev.j # -1 /\ Ev.j # Ev.i => Ev.other = y
              /\ Put(Ev.ty, Ev.i, e.post)
TSum == /\ IsEvent("wsum")
        /\ LET x == reg[Ev.ty][Ev.i]
               y == reg[Ev.ty][Ev.j]
               z == IF Ev.op = "plus" THEN LAdd(x, y) ELSE LSub(x, y)
           IN  /\ Ev.ret = z
               /\ Ev.left = x /\ Ev.right = y          \* operands are left alone
               /\ Put(Ev.ty, Ev.k, z)
TCmp == /\ IsEvent("wcmp")
        /\ Ev.o = LOrder(reg[Ev.ty][Ev.i], reg[Ev.ty][Ev.j])
        /\ UNCHANGED reg
Next == TMake \/ TDefault \/ TLimits \/ TValid \/ TOp \/ TSum \/ TCmp \/ (Finished /\ UNCHANGED reg)
Spec == Init /\ [][Next]_vars
=============================================================================
