----------------------------- MODULE ReaderImpl -----------------------------
(* The five text readers of src/datetime_read.hpp as the code runs them: a  *)
(* pointer walks over memory, one field per step, with strtol, strtod,      *)
(* errno and the copying of the month name.  Memory holds the text, its     *)
(* terminator and whatever happens to lie behind it.  Variant "code" is the *)
(* code as it is; the other variants are the defects the code once had (see *)
(* DESIGN.md) and exist to show that the properties below can fail.         *)
EXTENDS Text

CONSTANTS Texts,        \* set of << layout, resolution, text >>
          Behind,       \* set of sequences that may follow the terminator
          Errnos,       \* what errno may be before the call
          Points,       \* the decimal points of the locales the program may be in
          Variant       \* "code", "steps_past", "keeps_errno", "no_check_secs", "locale_point"

VARIABLES L, F, t, g, err, point,   \* the call and its surroundings
          start, end, far,      \* two pointers; the furthest address looked at
          fld, ints, mon,       \* fields read so far
          pc, out, stop
vars == << L, F, t, g, err, point, start, end, far, fld, ints, mon, pc, out, stop >>

ERANGE == 34
Mem == t \o << 0 >> \o g \o << 0 >>

Init == /\ \E x \in Texts : L = x[1] /\ F = x[2] /\ t = x[3]
        /\ g \in Behind /\ err \in Errnos /\ point \in Points
        /\ start = 1 /\ end = 1 /\ far = 0 /\ fld = 1 /\ ints = << >> /\ mon = 0
        /\ pc = "field" /\ out = << >> /\ stop = 0

Same == UNCHANGED << L, F, t, g, point >>
Err0 == IF Variant = "keeps_errno" THEN err ELSE IF fld = 1 THEN 0 ELSE err

\* strtol: the value, the end pointer, and errno afterwards
StrtolAt(p, e) == LET s == ScanInt(Mem, p) IN
    IF s.ok THEN [ ok |-> TRUE, v |-> s.v, e |-> s.e, far |-> s.e, err |-> IF s.v = -1 THEN ERANGE ELSE e ]
            ELSE [ ok |-> FALSE, v |-> 0, e |-> p, far |-> s.e, err |-> e ]

Step(p) == IF Variant = "steps_past" THEN p + 1 ELSE IF Mem[p] # 0 THEN p + 1 ELSE p

Refuse == pc' = "end" /\ out' = << 0 >> /\ UNCHANGED << start, end, fld, ints, mon, stop >>

NFields == NInts(L)
IsMonthField == L = "yod_hms" /\ fld = 2

ReadInt ==
    /\ pc = "field" /\ ~IsMonthField /\ fld <= NFields + (IF L = "yod_hms" THEN 1 ELSE 0)
    /\ start <= Len(Mem)
    /\ LET r == StrtolAt(start, Err0) IN
       /\ far' = Max2(far, r.far)
       /\ err' = r.err
       /\ IF r.err = ERANGE \/ ~r.ok \/ r.v = -1 THEN Refuse
          ELSE /\ ints' = Append(ints, r.v)
               /\ end' = r.e
               /\ start' = Step(r.e)
               /\ fld' = fld + 1
               /\ UNCHANGED << mon, pc, out, stop >>
    /\ Same

\* the month name: skip one character that is no letter, copy three, skip one
Copy(p) == LET RECURSIVE go(_, _, _)
               go(q, k, acc) == IF k = 0 THEN << q, acc >>
                                ELSE go(IF Mem[q] # 0 THEN q + 1 ELSE q, k - 1, Append(acc, Mem[q]))
           IN go(p, 3, << >>)
RECURSIVE CString(_)
CString(w) == IF w = << >> \/ Head(w) = 0 THEN << >> ELSE << Head(w) >> \o CString(Tail(w))
ReadMonth ==
    /\ pc = "field" /\ IsMonthField
    /\ LET p0 == IF Mem[start] # 0 /\ ~IsAlpha(Mem[start]) THEN start + 1 ELSE start
           cp == Copy(p0)
           ms == Named(CString(cp[2]))
       IN  /\ far' = Max2(far, cp[1])
           /\ UNCHANGED err
           /\ IF ms = {} THEN Refuse
              ELSE /\ mon' = (CHOOSE m \in ms : TRUE)
                   /\ start' = IF Mem[cp[1]] # 0 THEN cp[1] + 1 ELSE cp[1]
                   /\ fld' = fld + 1
                   /\ UNCHANGED << end, ints, pc, out, stop >>
    /\ Same

\* strtod: another locale's decimal point is seen where it stands, the '.' is not
InLocale(w) == [ i \in DOMAIN w |-> IF w[i] = point THEN 46 ELSE IF w[i] = 46 THEN 1 ELSE w[i] ]
Strtod(p) == ScanDec(IF Variant = "locale_point" /\ point # 46 THEN InLocale(Mem) ELSE Mem, p, F)

AllInts == fld = NFields + (IF L = "yod_hms" THEN 2 ELSE 1)
Date == CASE L \in { "ymd", "ymd_hms" } -> SubSeq(ints, 1, 3)
          [] L = "yod_hms" -> << ints[1], mon, ints[2] >>
          [] OTHER -> SubSeq(ints, 1, 2)
HM == IF ~HasClock(L) THEN << 0, 0 >> ELSE << ints[NFields - 1], ints[NFields] >>
\* the constructor: a year/month/day must exist, a day of year is carried
Assemble(h, mi, s, u) == IF Len(Date) = 3 /\ ~IsDate(Date[1], Date[2], Date[3]) THEN << 0 >>
                      ELSE << 1 >> \o Instant(F, Date, h, mi, s, u)
FinishDate ==
    /\ pc = "field" /\ AllInts /\ ~HasClock(L)
    /\ stop' = end - 2
    /\ out' = Assemble(0, 0, 0, 0)
    /\ pc' = "end" /\ UNCHANGED << start, end, far, fld, ints, mon, err >> /\ Same

FinishClock ==
    /\ pc = "field" /\ AllInts /\ HasClock(L)
    /\ start <= Len(Mem)
    /\ LET s == Strtod(start)
           e == IF s.ok THEN s.e ELSE start
       IN  /\ far' = Max2(far, IF start > Len(t) + 1 THEN s.e ELSE e)
           /\ UNCHANGED err
           /\ IF s.exotic THEN /\ out' = << 2 >> /\ stop' = 0        \* not followed further
              ELSE IF err = ERANGE \/ (~s.ok /\ Variant # "no_check_secs") \/ s.sec = -1
                   THEN out' = << 0 >> /\ stop' = 0
              ELSE /\ out' = Assemble(HM[1], HM[2], IF s.ok THEN s.sec ELSE 0, IF s.ok THEN s.u ELSE 0)
                   /\ stop' = e - 1
    /\ pc' = "end" /\ UNCHANGED << start, end, fld, ints, mon >> /\ Same

Next == ReadInt \/ ReadMonth \/ FinishDate \/ FinishClock
Spec == Init /\ [][Next]_vars

(* the properties *)
StaysInText == far <= Len(t) + 1
Outcome == pc = "end" =>
    LET R == Reading(L, F, t) IN
    \/ out = << 2 >>
    \/ out = << 0 >> /\ R.refuse
    \/ out[1] = 1 /\ (R.any \/ (Tail(out) \in R.vals /\ stop \in R.stops))
\* a reader always comes to an end
Ends == pc = "end" \/ ENABLED Next
=============================================================================
