---------------------------- MODULE PlayTimeline ----------------------------
(* Plays: behaviours of the specification, chosen by TLC in simulation mode *)
(* and written out as scripts for the real library.  Where the generators   *)
(* in bin/ choose inputs blindly, a play knows the state it is in, and at   *)
(* every step aims at a target instant: one step before, on or after a      *)
(* boundary of the clock, near the present day or near a day that matters   *)
(* to some operation.  The amounts, dates and parts that lead there are     *)
(* computed from Timeline's and Gregorian's own definitions.                *)
(* An amount is written @T:n:s:u; bin/gen_play.py turns it into ticks.      *)
EXTENDS Quotient, Gregorian, Json, IOUtils, TLC, FiniteSets

CONSTANTS Depth,    \* length of a play
          Mix       \* which operations it is made of
VARIABLES reg, iv, hist
vars == << reg, iv, hist >>

FS  == { 1, 1000, 1000000 }
Rs  == 0..3
Is  == 0..3
One(S) == { RandomElement(S) }

Init == /\ reg = [ r \in Rs |-> Val(1, 51544, 0, 0) ]
        /\ iv = [ i \in Is |-> Val(1, 0, 0, 0) ]
        /\ hist = << >>

\* ---- targets ----------------------------------------------------------------
EdgeSecs == { 0, 1, SPM - 1, SPM, SPH - 1, SPH, SPD \div 2 - 1, SPD \div 2, SPD - SPH - 1, SPD - SPH,
              SPD - SPM - 1, SPD - SPM, SPD - 2, SPD - 1 }
EdgeTicks(F) == { 0, 1, F - 1, F \div 2, F \div 10, (9 * F) \div 10 } \cap 0..(F - 1)
Special == { 0, -1, 1, 15384, 15385, 41317, 41498, 41499, 44243, 44244, 51543, 51544, 51602, 51603, 51604, 57753, 57754,
             58849, 60368, 60369, 60370, 60676, 88068, 88069, -678575, -678574, -678941, 99999, 100000, 65535, 65536, 2973483 }
Near == { 0, 0, 1, -1, 2, -2, 6, 7, -7, 8, 28, 29, 30, 31, -31, 59, 60, 364, 365, 366, -365, -366, 1461, 36524, 36525, 146097, -146097 }
FarDays == { 24855, 24856, -24856, 49710, 49711, 106751, 106752, -106752, 250000 }
Lowest == -678900
Days(n) == { d \in ({ n + k : k \in Near } \cup Special) : d >= Lowest /\ d <= 3200000 }
AllDays(n) == { d \in (Days(n) \cup { n + k : k \in FarDays }) : d >= Lowest /\ d <= 3200000 }
\* some value of resolution F near day n
Target(F, n) == { Val(F, d, s, u) : d \in One(AllDays(n)), s \in One(EdgeSecs \cup { RandomElement(0..(SPD - 1)) }),
                                    u \in One(EdgeTicks(F)) }
\* one tick (or one second) away from y
Beside(y) == { Sum(y, Val(y.F, 0, t[1], t[2])) : t \in One({ << 0, 0 >>, << 0, 1 >>, << 0, -1 >>, << 1, 0 >>, << -1, 0 >>, << 0, 0 >> }) }

\* ---- text of a command ---------------------------------------------------------
S(n) == ToString(n)
Sp(a, b) == a \o " " \o b
AmtText(a) == "@" \o S(a.F) \o ":" \o S(a.n) \o ":" \o S(a.s) \o ":" \o S(a.u)

Line(s) == hist' = Append(hist, s)
SetR(r, v) == reg' = [ reg EXCEPT ![r] = v ] /\ UNCHANGED iv
SetI(i, v) == iv' = [ iv EXCEPT ![i] = v ] /\ UNCHANGED reg
Same == UNCHANGED << reg, iv >>

Pieces(dv) == Sp(S(dv[1]), Sp(S(dv[2]), S(dv[3])))
Date(dk, n) == IF dk = "ymd" THEN Pieces(DateOf(Split(n)))
               ELSE IF dk = "ydoy" THEN Sp(S(YearDoyOf(Split(n))[1]), S(YearDoyOf(Split(n))[2]))
               ELSE S(n)

Observe(r) == Line(Sp("obs", S(r))) /\ Same

\* a date-time at a target, from a date near it and the parts that remain
Make(r) ==
    \E F \in One(FS) : \E y \in Target(F, reg[r].n) :
    \E d \in One({ 0, 0, 0, 1, -1, 2, -3, 40 }) : \E dk \in One({ "mjd", "ymd", "ydoy", "gps" }) :
    \E h \in One({ 0, 1, 23, 24, 25, -1, -24, 49, 100 }) : \E mi \in One({ 0, 1, 59, 60, 61, -1, -60, 1439, 1440, 1441 }) :
    \E clock \in One(BOOLEAN) : \E T \in One({ f \in FS : f >= F }) :
    \E up \in One({ << 0, 0 >>, << 0, 1 >>, << 1, 0 >>, << 1, 1 >> }) :
    LET n0 == IF y.n - d < Lowest THEN Lowest ELSE y.n - d
        n  == IF dk = "gps" THEN n0 - ((n0 - GpsEpoch) % 7) ELSE n0
        hh == IF clock /\ dk # "gps" THEN h ELSE 0
        mm == IF clock /\ dk # "gps" THEN mi ELSE 0
        base == Norm(F, n, hh * SPH + mm * SPM, 0)
        a0 == Refine(T, Diff(y, base))
        \* some ticks of T below the tick of F, which have to be dropped
        q  == Ratio(T, F)
        a  == IF dk \in { "mjd", "gps" } THEN Diff(y, base)
              ELSE IF IsNeg(a0) \/ q = 1 THEN a0
              ELSE Val(T, a0.n, a0.s, a0.u + up[1] * (q \div 2) + up[2] * (q \div 2 - 1))
        form == IF dk = "gps" THEN "gps" ELSE IF clock THEN dk \o "h" ELSE dk
        where == IF dk = "gps" THEN S((n - GpsEpoch) \div 7) ELSE Date(dk, n)
        hm == IF clock /\ dk # "gps" THEN Sp(" " \o S(hh), S(mm)) ELSE ""
        ty == IF dk \in { "mjd", "gps" } THEN "" ELSE " " \o S(T)
    IN  /\ Line("mk " \o S(r) \o " " \o S(F) \o " " \o form \o " " \o where \o hm \o ty \o " " \o AmtText(a))
        /\ SetR(r, CHOOSE v \in Build(F, n, hh, mm, a) : TRUE)

\* to a target of its own resolution, in one step, there or back
Add(r) ==
    \E y0 \in Target(reg[r].F, reg[r].n) : \E y \in Beside(y0) : \E sgn \in One({ 1, -1 }) :
    LET x == reg[r]
        a == IF sgn = 1 THEN Diff(y, x) ELSE Diff(x, y)
    IN  /\ Line("add " \o S(r) \o " " \o S(sgn) \o " " \o S(x.F) \o " " \o AmtText(a))
        /\ SetR(r, y)
\* by a coarser amount: to the same fraction of a second somewhere else
AddCoarse(r) ==
    \E T \in One({ f \in FS : f <= reg[r].F }) : \E y0 \in Target(T, reg[r].n) : \E sgn \in One({ 1, -1 }) :
    LET x == reg[r]
        e == Diff(Refine(x.F, y0), x)
        a == Coarsen(T, e)
    IN  /\ Line("add " \o S(r) \o " " \o S(sgn) \o " " \o S(T) \o " " \o AmtText(IF sgn = 1 THEN a ELSE Neg(a)))
        /\ SetR(r, CHOOSE v \in AddSec(x, a, 1) : TRUE)
\* by a finer amount: just before, on or just after a tick of its own
AddFine(r) ==
    \E T \in One({ f \in FS : f >= reg[r].F }) : \E y0 \in Target(reg[r].F, reg[r].n) : \E sgn \in One({ 1, -1 }) :
    \E up \in One({ 0, 0, 1, 2, 3 }) :
    LET x == reg[r]
        q == Ratio(T, x.F)
        a0 == Refine(T, Diff(y0, x))
        sub == IF q = 1 \/ y0.n < x.n THEN 0 ELSE (<< 0, 1, q \div 2, q - 1 >>)[up + 1]
        a == Val(T, a0.n, a0.s, a0.u + sub)
    IN  /\ Line("add " \o S(r) \o " " \o S(sgn) \o " " \o S(T) \o " " \o AmtText(IF sgn = 1 THEN a ELSE Neg(a)))
        /\ SetR(r, CHOOSE v \in AddSec(x, a, 1) : TRUE)
\* add(days, amount) into a register
AddDaysTo(r) ==
    \E r2 \in One(Rs) : \E y0 \in Target(reg[r].F, reg[r].n) : \E y \in Beside(y0) : \E k \in One({ 0, 1, -1, 30, -400, 40000 }) :
    LET x == reg[r]
        days == y.n - x.n + k
        a == Diff(y, Sum(x, Val(x.F, days, 0, 0)))
    IN  /\ Line("addd " \o S(r) \o " " \o S(r2) \o " " \o S(days) \o " " \o S(x.F) \o " " \o AmtText(a))
        /\ SetR(r2, y)
\* the interval to a target, built from parts that are not in normal form
Interval(r) ==
    \E i \in One(Is) : \E y0 \in Target(reg[r].F, reg[r].n) : \E y \in Beside(y0) : \E k \in One({ 0, 0, 1, -1, 3, -1000 }) :
    LET x == reg[r]
        v == Diff(y, x)
        a == Diff(v, Val(x.F, v.n + k, 0, 0))
    IN  /\ Line("imk " \o S(i) \o " " \o S(x.F) \o " " \o S(v.n + k) \o " " \o AmtText(a))
        /\ SetI(i, v)
AddInterval(r) ==
    LET I == { i \in Is : iv[i].F = reg[r].F /\ AddIv(reg[r], iv[i]).n \in Lowest..3200000 }
    IN  IF I = {} THEN Interval(r)
        ELSE \E i \in One(I) :
             Line("addi " \o S(r) \o " " \o S(i)) /\ SetR(r, AddIv(reg[r], iv[i]))
\* the difference of two registers
Ddate(r) ==
    \E r2 \in One({ q \in Rs : reg[q].F = reg[r].F }) : \E i \in One(Is) : \E f \in One({ 0, 1 }) :
        /\ Line("ddate " \o S(r) \o " " \o S(r2) \o " " \o S(i) \o " " \o S(f))
        /\ SetI(i, Diff(reg[r], reg[r2]))
Dsec(r) == \E r2 \in One(Rs) : Line("dsec " \o S(r) \o " " \o S(r2)) /\ Same
Dmjd(r) == \E r2 \in One(Rs) : Line("dmjd " \o S(r) \o " " \o S(r2)) /\ Same
\* a register becomes another one's neighbour, and is compared with it
Twin(r) ==
    \E r2 \in One(Rs \ { r }) : \E y \in Beside(reg[r]) :
        /\ Line("mk " \o S(r2) \o " " \o S(y.F) \o " mjd " \o S(y.n) \o " " \o AmtText(Val(y.F, 0, y.s, y.u)))
        /\ SetR(r2, y)
Compare(r) == \E r2 \in One({ q \in Rs : reg[q].F = reg[r].F }) : Line("cmp " \o S(r) \o " " \o S(r2)) /\ Same
CompareIv == \E i \in One(Is) : \E j \in One({ q \in Is : iv[q].F = iv[i].F }) : Line("icmp " \o S(i) \o " " \o S(j)) /\ Same
CastTo(r) ==
    \E r2 \in One(Rs) : \E F \in One(FS) :
        /\ Line("cast " \o S(r) \o " " \o S(r2) \o " " \o S(F))
        /\ SetR(r2, Cast(F, reg[r]))
Gps(r) == IF reg[r].n < GpsEpoch THEN Observe(r) ELSE Line("gps " \o S(r)) /\ Same
Tai(r) == IF reg[r].n < 41317 THEN Observe(r) ELSE Line("tai " \o S(r)) /\ Same

\* an interval that is k equal parts, or a little less or more, and its k-th part
Divide ==
    \E F \in One(FS) : \E k \in One({ 1, 2, 3, 7, 10, 24, 60, 1000, 86399, 86400, 86401, 999983 }) :
    \E n \in One(0..(3000000 \div k)) : \E s \in One(EdgeSecs) : \E u \in One(EdgeTicks(F)) :
    \E i \in One(Is) : \E j \in One(Is) : \E off \in One({ 0, 0, -1, 1, k - 1, -k }) :
    LET q == Val(F, n, s, u)
        x0 == Sum(Times(q, k), Val(F, 0, 0, off))
        x == IF IsNeg(x0) THEN Times(q, k) ELSE x0
        y == IF IsNeg(x0) \/ (off >= 0 /\ off < k) THEN q
             ELSE IF off >= k THEN Sum(q, OneTick(F)) ELSE Diff(q, OneTick(F))
    IN  /\ Line("imk " \o S(i) \o " " \o S(F) \o " " \o S(x.n) \o " " \o AmtText(Val(F, 0, x.s, x.u))
                \o ";idiv " \o S(i) \o " " \o S(j) \o " " \o S(k))
        /\ IsQuotient(y, x, k)
        /\ iv' = [ [ iv EXCEPT ![i] = x ] EXCEPT ![j] = y ]
        /\ UNCHANGED reg

Base == << "make", "make", "make", "add", "add", "coarse", "fine", "days", "interval", "addi", "addi", "ddate", "dsec", "dmjd",
           "twin", "twin", "cmp", "cmp", "icmp", "cast", "gps", "tai", "obs" >>
Kinds == CASE Mix = "all"   -> Base
           [] Mix = "build" -> << "make", "make", "make", "make", "make", "make", "obs", "add", "twin" >>
           [] Mix = "history" -> << "make", "add", "add", "add", "coarse", "coarse", "days", "days", "interval", "addi", "addi", "cast" >>
           [] Mix = "fine"  -> << "make", "fine", "fine", "fine", "fine", "cast", "cast", "add", "twin" >>
           [] Mix = "order" -> << "make", "add", "twin", "twin", "cmp", "cmp", "cmp", "cmp", "interval", "icmp", "icmp", "ddate" >>
           [] Mix = "diff"  -> << "make", "twin", "ddate", "ddate", "addi", "addi", "dsec", "dsec", "dsec", "dmjd", "add", "cast" >>
           [] Mix = "gps"   -> << "make", "make", "add", "twin", "gps", "gps", "gps", "gps", "cast" >>
           [] Mix = "tai"   -> << "make", "make", "add", "twin", "tai", "tai", "tai", "tai", "cast" >>
           [] Mix = "interval" -> << "make", "interval", "divide", "divide", "divide", "icmp", "icmp", "ddate", "addi", "twin" >>
Step == \E k \in One(DOMAIN Kinds) : \E r \in One(Rs) :
    CASE Kinds[k] = "make" -> Make(r)
      [] Kinds[k] = "add" -> Add(r)
      [] Kinds[k] = "coarse" -> AddCoarse(r)
      [] Kinds[k] = "fine" -> AddFine(r)
      [] Kinds[k] = "days" -> AddDaysTo(r)
      [] Kinds[k] = "interval" -> Interval(r)
      [] Kinds[k] = "addi" -> AddInterval(r)
      [] Kinds[k] = "ddate" -> Ddate(r)
      [] Kinds[k] = "dsec" -> Dsec(r)
      [] Kinds[k] = "dmjd" -> Dmjd(r)
      [] Kinds[k] = "twin" -> Twin(r)
      [] Kinds[k] = "cmp" -> Compare(r)
      [] Kinds[k] = "icmp" -> CompareIv
      [] Kinds[k] = "cast" -> CastTo(r)
      [] Kinds[k] = "divide" -> Divide
      [] Kinds[k] = "gps" -> Gps(r)
      [] Kinds[k] = "tai" -> Tai(r)
      [] OTHER -> Observe(r)
Next == Len(hist) < Depth /\ Step
Spec == Init /\ [][Next]_vars

\* the play, with the registers as the specification has them at its end
Emit == Len(hist) = Depth =>
          Serialize(ToJson([ play |-> hist,
                             reg |-> [ r \in 1..4 |-> << reg[r - 1].F, reg[r - 1].n, reg[r - 1].s, reg[r - 1].u >> ] ]) \o "\n",
                    IOEnv.PLAYS, [ format |-> "TXT", charset |-> "UTF-8", openOptions |-> << "WRITE", "CREATE", "APPEND" >> ]).exitValue = 0
AllNormal == /\ \A r \in Rs : IsNormal(reg[r])
             /\ \A i \in Is : IsNormal(iv[i])
=============================================================================
