--------------------------- MODULE TraceTimeline ---------------------------
(* Conformance of datetime<S> / datetime_interval<S> (src/dtcalendar.hpp)   *)
(* with Timeline.tla on the real clock.  The driver interprets scripts on   *)
(* eight date-time registers and four interval registers; every event has   *)
(* the arguments and, in full, the raw value the written register holds     *)
(* afterwards: <<day number, days, seconds, ticks>>, where the last three   *)
(* are the library's tick count divided out (not normalised).               *)
EXTENDS Quotient, Gregorian, TraceBase

VARIABLES reg, iv
vars == << reg, iv, c, l >>

NReg == 8
NIv  == 4
Default == Val(1, 51544, 0, 0)

Init == /\ TBInit
        /\ reg = [ i \in 0..(NReg - 1) |-> Default ]
        /\ iv  = [ i \in 0..(NIv - 1) |-> Val(1, 0, 0, 0) ]

\* an amount as logged (days, seconds, ticks, all of one sign)
Amt(T, a) == Val(T, a[1], a[2], a[3])
\* the logged value of a register, when it is in normal form
Holds(F, p) == IF p[2] = 0 THEN Val(F, p[1], p[3], p[4]) ELSE Val(F, -1, -1, -1)

Set(r, p, allowed) ==
    /\ p \in { << w.n, 0, w.s, w.u >> : w \in allowed }
    /\ reg' = [ reg EXCEPT ![r] = CHOOSE w \in allowed : p = << w.n, 0, w.s, w.u >> ]
    /\ UNCHANGED iv
SetIv(i, p, w) ==
    /\ p = << w.n, 0, w.s, w.u >>
    /\ iv' = [ iv EXCEPT ![i] = w ]
    /\ UNCHANGED reg
Same == UNCHANGED << reg, iv >>

\* ---- C04: construction ---------------------------------------------------
DayOf(dk, dv) ==
    CASE dk = "mjd"  -> dv[1]
      [] dk = "gps"  -> GpsEpoch + 7 * dv[1]
      [] dk = "ymd"  -> Flat(DayNo(dv[1], dv[2], dv[3]))
      [] dk = "ydoy" -> Flat(DayNoOfDoy(dv[1], dv[2]))
TMake ==
    /\ IsEvent("mk")
    /\ Set(Ev.r, Ev.post,
           Build(Ev.F, DayOf(Ev.dk, Ev.dv), Ev.h, Ev.mi, Amt(Ev.T, Ev.A)))
TMakeDefault == IsEvent("mk0") /\ Set(Ev.r, Ev.post, { Val(Ev.F, 51544, 0, 0) })

\* ---- C05, C06: changing ---------------------------------------------------
TAdd == /\ IsEvent("add")
        /\ Set(Ev.r, Ev.post, AddSec(reg[Ev.r], Amt(Ev.T, Ev.A), Ev.sgn))
TAddDay == /\ IsEvent("addd")
           /\ Set(Ev.r2, Ev.post, AddDay(reg[Ev.r], Ev.days, Amt(Ev.T, Ev.A)))
TAddIv == /\ IsEvent("addi")
          /\ reg[Ev.r].F = iv[Ev.i].F
          /\ Set(Ev.r, Ev.post, { AddIv(reg[Ev.r], iv[Ev.i]) })
TCast == /\ IsEvent("cast")
         /\ Set(Ev.r2, Ev.post, { Cast(Ev.F, reg[Ev.r]) })

\* k times the same operation; the driver checked nothing but that the
\* observed value moved by the same number of days, seconds and ticks each
\* time (no carry in between), so that first and last value determine all.
TAddRun ==
    /\ IsEvent("addrun")
    /\ LET x0 == reg[Ev.r]
           a  == Amt(Ev.T, Ev.A)
           x1 == Sum(x0, IF Ev.sgn = 1 THEN a ELSE Neg(a))
           st == << x1.n - x0.n, x1.s - x0.s, x1.u - x0.u >>
           xk == Val(x0.F, x0.n + Ev.k * st[1], x0.s + Ev.k * st[2], x0.u + Ev.k * st[3])
       IN  /\ Ev.T <= x0.F /\ Ev.k >= 1
           /\ Ev.step = << st[1], 0, st[2], st[3] >>
           /\ IsNormal(xk)
           /\ Set(Ev.r, Ev.post, { xk })

\* ---- C07 ------------------------------------------------------------------
TCmp == /\ IsEvent("cmp")
        /\ Ev.o = Order(reg[Ev.r], reg[Ev.r2])
        /\ Same
\* the published extreme values bound every date-time
IsBefore == << FALSE, TRUE, TRUE, TRUE, FALSE, FALSE >>
IsAfter  == << FALSE, TRUE, FALSE, FALSE, TRUE, TRUE >>
TLim == /\ IsEvent("lim")
        /\ Ev.hi = IsBefore /\ Ev.dhi = IsBefore /\ Ev.lo = IsAfter /\ Ev.dlo = IsAfter
        /\ Same
TSort ==  \* std::sort of the registers in rs gave the values in post
    /\ IsEvent("sort")
    /\ LET F == reg[Ev.rs[1]].F
           got == [ i \in DOMAIN Ev.post |-> Holds(F, Ev.post[i]) ]
       IN  /\ Len(Ev.post) = Len(Ev.rs)
           /\ \A i \in 1..(Len(got) - 1) : ~Lt(got[i + 1], got[i])
           /\ \A w \in Elems(got) \cup { reg[r] : r \in Elems(Ev.rs) } :
                 Cardinality({ i \in DOMAIN got : got[i] = w })
                 = Cardinality({ i \in DOMAIN Ev.rs : reg[Ev.rs[i]] = w })
    /\ Same

\* ---- C08 ------------------------------------------------------------------
TDelta ==
    /\ IsEvent("dsec")
    /\ LET d == Diff(reg[Ev.r], reg[Ev.r2])
       IN  /\ Ev.G = d.F
           /\ \A o \in Elems(Ev.o) : NormV(Amt(d.F, o)) = d
           /\ Ev.o # << >>
    /\ Same
TDdate ==
    /\ IsEvent("ddate")
    /\ SetIv(Ev.i, Ev.post, Diff(reg[Ev.r], reg[Ev.r2]))
TDays ==      \* mjd_sec_diff of the two day numbers
    /\ IsEvent("dmjd")
    /\ \A o \in Elems(Ev.o) :
          NormV(Amt(o[1], << o[2], o[3], o[4] >>)) = Val(o[1], reg[Ev.r].n - reg[Ev.r2].n, 0, 0)
    /\ Same

\* ---- C09, C10 and the other projections ------------------------------------
TGps ==
    /\ IsEvent("gps")
    /\ LET x == reg[Ev.r]
           w == (x.n - GpsEpoch) \div 7
           k == Dow(Split(x.n))
       IN  /\ x.n >= GpsEpoch
           /\ Elems(Ev.week) = { w }
           /\ Ev.sow = << k, x.s, 0 >>
           /\ Ev.tow = << k, x.s, x.u >>
           /\ Elems(Ev.dow) = { k }
           /\ Ev.back = << x.n, 0, x.s, x.u >>
    /\ Same
TTai ==
    /\ IsEvent("tai")
    /\ Elems(Ev.tai) = { TaiUtc(Split(reg[Ev.r].n)) }
    /\ Same
TObs ==
    /\ IsEvent("obs")
    /\ LET x == reg[Ev.r]
       IN  /\ x.n >= FirstDay => /\ Ev.ymd = DateOf(Split(x.n))
                                 /\ Ev.ydoy = YearDoyOf(Split(x.n))
           /\ Ev.hms = Clock(x)
           /\ Ev.post = << x.n, 0, x.s, x.u >>
    /\ Same

\* ---- C17: intervals --------------------------------------------------------
TIMake == /\ IsEvent("imk")
          /\ SetIv(Ev.i, Ev.post, Norm(Ev.F, Ev.n + Ev.A[1], Ev.A[2], Ev.A[3]))
TIMake0 == /\ IsEvent("imk0")
           /\ SetIv(Ev.i, Ev.post, Val(Ev.F, 0, 0, 0))
TIDiv == /\ IsEvent("idiv")
         /\ ~IsNeg(iv[Ev.i]) /\ Ev.k >= 1
         /\ Ev.post[2] = 0
         /\ LET q == Val(iv[Ev.i].F, Ev.post[1], Ev.post[3], Ev.post[4]) IN
            /\ IsNormal(q)
            /\ q.n = iv[Ev.i].n \div Ev.k     \* (implied; keeps the next line within 32 bits)
            /\ IsQuotient(q, iv[Ev.i], Ev.k)
            /\ iv' = [ iv EXCEPT ![Ev.j] = q ]
         /\ UNCHANGED reg
TICmp == /\ IsEvent("icmp")
         /\ Ev.o = Order(iv[Ev.i], iv[Ev.j])
         /\ Same

Next == \/ TMake \/ TMakeDefault \/ TAdd \/ TAddDay \/ TAddIv \/ TCast \/ TAddRun
        \/ TCmp \/ TLim \/ TSort \/ TDelta \/ TDdate \/ TDays \/ TGps \/ TTai \/ TObs
        \/ TIMake \/ TIMake0 \/ TIDiv \/ TICmp
        \/ Finished /\ Same
Spec == Init /\ [][Next]_vars
\* every state of every validated behaviour is in normal form (C04, C05, C17)
AllNormal == /\ \A i \in DOMAIN reg : IsNormal(reg[i])
             /\ \A i \in DOMAIN iv : IsNormal(iv[i])
=============================================================================
