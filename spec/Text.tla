-------------------------------- MODULE Text --------------------------------
(* Texts of date-times: what each of the five layouts means, which texts    *)
(* must be read, which must be refused, and what the writers may write.     *)
(* A text is a sequence of character codes (1..255); the terminator is not  *)
(* part of it.                                                              *)
EXTENDS Timeline, Gregorian

IsDigit(ch) == ch >= 48 /\ ch <= 57
IsSpace(ch) == ch = 32 \/ (ch >= 9 /\ ch <= 13)
IsUpper(ch) == ch >= 65 /\ ch <= 90
IsLower(ch) == ch >= 97 /\ ch <= 122
IsAlpha(ch) == IsUpper(ch) \/ IsLower(ch)
ToLower(ch) == IF IsUpper(ch) THEN ch + 32 ELSE ch

At(t, p) == IF p <= Len(t) THEN t[p] ELSE 0          \* 0: the terminator

RECURSIVE SkipSpace(_, _)
SkipSpace(t, p) == IF IsSpace(At(t, p)) THEN SkipSpace(t, p + 1) ELSE p
RECURSIVE SkipDigits(_, _)
SkipDigits(t, p) == IF IsDigit(At(t, p)) THEN SkipDigits(t, p + 1) ELSE p

\* value of the digits t[p..q-1]; -1 if it exceeds 2147483647
RECURSIVE DigitsVal(_, _, _, _)
DigitsVal(t, p, q, acc) ==
    IF p >= q THEN acc
    ELSE LET d == t[p] - 48 IN
         IF acc > 214748364 \/ (acc = 214748364 /\ d > 7) THEN -1
         ELSE DigitsVal(t, p + 1, q, acc * 10 + d)

\* Scan a whole number at p.  plain: digits only (no space or sign before).
ScanInt(t, p) ==
    LET p1 == SkipSpace(t, p)
        p2 == IF At(t, p1) \in {43, 45} THEN p1 + 1 ELSE p1
        p3 == SkipDigits(t, p2)
    IN  [ ok |-> p3 > p2, v |-> DigitsVal(t, p2, p3, 0), e |-> p3, plain |-> p2 = p ]

\* the field after the one ending at e: one delimiting character is skipped
After(t, e) == IF e <= Len(t) THEN e + 1 ELSE e

\* ---- months --------------------------------------------------------------
LongNames == <<
  << 106,97,110,117,97,114,121 >>,          \* january
  << 102,101,98,114,117,97,114,121 >>,
  << 109,97,114,99,104 >>,
  << 97,112,114,105,108 >>,
  << 109,97,121 >>,
  << 106,117,110,101 >>,
  << 106,117,108,121 >>,
  << 97,117,103,117,115,116 >>,
  << 115,101,112,116,101,109,98,101,114 >>,
  << 111,99,116,111,98,101,114 >>,
  << 110,111,118,101,109,98,101,114 >>,
  << 100,101,99,101,109,98,101,114 >> >>
ShortName(m) == SubSeq(LongNames[m], 1, 3)
Lower(t) == [ i \in DOMAIN t |-> ToLower(t[i]) ]
\* the months a text names: at most one
ShortNames == << ShortName(1), ShortName(2), ShortName(3), ShortName(4), ShortName(5), ShortName(6),
                 ShortName(7), ShortName(8), ShortName(9), ShortName(10), ShortName(11), ShortName(12) >>
Named(t) == IF Len(t) \notin 3..9 THEN {}
            ELSE LET x == Lower(t) IN { m \in 1..12 : x = ShortNames[m] \/ x = LongNames[m] }
Capital(t) == [ t EXCEPT ![1] = t[1] - 32 ]

\* ---- decimal seconds -------------------------------------------------------
\* first F-digits of the fraction t[p..q-1] as ticks
RECURSIVE FracVal(_, _, _, _, _)
FracVal(t, p, q, w, acc) ==
    IF w = 0 THEN acc
    ELSE FracVal(t, p + 1, q, w \div 10, acc * 10 + (IF p < q THEN t[p] - 48 ELSE 0))
\* FracVal(.., F, ..) reads log10(F) digits: w runs F/10, ..., 1
Frac(t, p, q, F) == FracVal(t, p, q, F \div 10, 0)

ScanDec(t, p, F) ==
    LET p1 == SkipSpace(t, p)
        p2 == IF At(t, p1) \in {43, 45} THEN p1 + 1 ELSE p1
        p3 == SkipDigits(t, p2)
        dot == At(t, p3) = 46
        p4 == IF dot THEN SkipDigits(t, p3 + 1) ELSE p3
        digits == (p3 - p2) + (IF dot THEN p4 - p3 - 1 ELSE 0)
        nx == At(t, p4)
        \* what strtod understands beyond decimals: exponents, hexadecimals, inf, nan
        exotic == \/ digits > 0 /\ nx \in {69, 101}
                  \/ digits > 0 /\ ~dot /\ nx \in {88, 120} /\ t[p3 - 1] = 48
                  \/ digits = 0 /\ At(t, p2) \in {73, 105, 78, 110}
    IN  [ ok     |-> digits > 0,
          exotic |-> exotic,
          plain  |-> p2 = p /\ p3 > p2 /\ ~(At(t, p1) \in {43, 45}),
          neg    |-> At(t, p1) = 45,
          sec    |-> DigitsVal(t, p2, p3, 0),
          u      |-> IF dot THEN Frac(t, p3 + 1, p4, F) ELSE 0,
          fd     |-> IF dot THEN p4 - p3 - 1 ELSE 0,
          e      |-> p4 ]

\* ---- layouts -----------------------------------------------------------------
Layouts == { "ymd", "ydoy", "ymd_hms", "ydoy_hms", "yod_hms" }
NInts(L) == CASE L = "ymd" -> 3 [] L = "ydoy" -> 2 [] L = "ymd_hms" -> 5
              [] L = "ydoy_hms" -> 4 [] L = "yod_hms" -> 4
HasClock(L) == L \in { "ymd_hms", "ydoy_hms", "yod_hms" }

\* scan k more whole numbers at p; st: [ok, plain, vs, e]
RECURSIVE ScanInts(_, _, _, _)
ScanInts(t, p, k, st) ==
    IF k = 0 \/ ~st.ok THEN st
    ELSE LET f == ScanInt(t, p) IN
         ScanInts(t, After(t, f.e), k - 1,
                  [ ok |-> f.ok /\ f.v # -1, plain |-> st.plain /\ f.plain,
                    vs |-> Append(st.vs, f.v), e |-> f.e ])
Scan0 == [ ok |-> TRUE, plain |-> TRUE, vs |-> << >>, e |-> 1 ]

\* the month of the yod layout: at most one non-letter is skipped before it
ScanMonth(t, p) ==
    LET q == IF p <= Len(t) /\ ~IsAlpha(t[p]) THEN p + 1 ELSE p
        w == SubSeq(t, q, Min2(q + 2, Len(t)))
    IN  [ ms |-> Named(w), e |-> Min2(q + 3, Len(t) + 1), plain |-> q = p ]

\* All fields of a text: [ok, plain, y, date, h, mi, e] (before the seconds)
Fields(L, t) ==
    IF L = "yod_hms"
    THEN LET a == ScanInts(t, 1, 1, Scan0)
             m == ScanMonth(t, After(t, a.e))
             b == ScanInts(t, After(t, m.e), 3, Scan0)
         IN  IF ~a.ok \/ m.ms = {} \/ ~b.ok
             THEN [ ok |-> FALSE ]
             ELSE [ ok |-> TRUE, plain |-> a.plain /\ m.plain /\ b.plain,
                    real |-> IsDate(a.vs[1], CHOOSE x \in m.ms : TRUE, b.vs[1]),
                    doy |-> FALSE,
                    date |-> << a.vs[1], CHOOSE x \in m.ms : TRUE, b.vs[1] >>,
                    h |-> b.vs[2], mi |-> b.vs[3], e |-> b.e ]
    ELSE LET a == ScanInts(t, 1, NInts(L), Scan0)
             dl == IF L \in {"ymd", "ymd_hms"} THEN 3 ELSE 2
         IN  IF ~a.ok THEN [ ok |-> FALSE ]
             ELSE [ ok |-> TRUE, plain |-> a.plain,
                    real |-> IF dl = 3 THEN IsDate(a.vs[1], a.vs[2], a.vs[3])
                             ELSE IsDoy(a.vs[1], a.vs[2]),
                    doy |-> dl = 2,
                    date |-> SubSeq(a.vs, 1, dl),
                    h |-> IF HasClock(L) THEN a.vs[dl + 1] ELSE 0,
                    mi |-> IF HasClock(L) THEN a.vs[dl + 2] ELSE 0,
                    e |-> a.e ]

\* <<q, r, s, u>>: the instant, its day number as a pair
Instant(F, date, h, mi, sec, u) ==
    LET n0 == IF Len(date) = 3 THEN DayNo(date[1], date[2], date[3])
              ELSE NormDay(date[1] \div 400, Jan1Y0 + YearDays(date[1] % 400) + ((date[2] - 1) % Cycle))
        \* (a day of year too large to exist may still be carried)
        w == IF Len(date) = 3 THEN 0 ELSE (date[2] - 1) \div Cycle
        c == Norm(F, (h \div HPD) + (mi \div (HPD * MPH)),
                     (h % HPD) * SPH + (mi % (HPD * MPH)) * SPM + (sec % SPD), u)
        n == NormDay(n0[1] + w, n0[2] + c.n + (sec \div SPD))
    IN  << n[1], n[2], c.s, c.u >>

(* What reading text t in layout L at resolution F may do:                   *)
(*   refuse   it may throw                                                   *)
(*   vals     the instants it may return                                     *)
(*   any      it may return anything (exotic numbers)                        *)
(*   stops    the stop offsets it may report with a returned value           *)
Reading(L, F, t) ==
    LET f == Fields(L, t) IN
    IF ~f.ok THEN [ refuse |-> TRUE, vals |-> {}, any |-> FALSE, stops |-> {} ]
    ELSE IF ~f.real /\ ~f.doy
         THEN \* a year/month/day that does not exist; the clock may be missing or wrong, too
              [ refuse |-> TRUE, vals |-> {}, any |-> FALSE, stops |-> {} ]
    ELSE IF ~HasClock(L)
         THEN [ refuse |-> ~(f.plain /\ f.real),
                vals |-> { Instant(F, f.date, 0, 0, 0, 0) }, any |-> FALSE,
                stops |-> { f.e - 2 } ]
    ELSE LET s == ScanDec(t, After(t, f.e), F) IN
         IF s.exotic THEN [ refuse |-> TRUE, vals |-> {}, any |-> TRUE, stops |-> {} ]
         ELSE IF ~s.ok \/ s.sec = -1
              THEN [ refuse |-> TRUE, vals |-> {}, any |-> FALSE, stops |-> {} ]
         ELSE LET v == Instant(F, f.date, f.h, f.mi, s.sec, s.u)
                  up == Instant(F, f.date, f.h, f.mi, s.sec, s.u + 1)
                  clock == f.h < HPD /\ f.mi < MPH /\ s.sec < SPM
                  \* more digits than a double is sure to hold
                  long == s.fd > 9 \/ (s.sec >= 100000 /\ s.fd > 5) \/ s.sec >= 100000000
              IN  [ refuse |-> ~(f.plain /\ f.real /\ s.plain /\ clock),
                    vals |-> IF long THEN { v, up } ELSE { v },
                    any |-> s.neg,
                    stops |-> { s.e - 1 } \cup (IF s.fd = 0 /\ At(t, s.e - 1) = 46 THEN { s.e - 2 } ELSE {}) ]

\* ---- writing -------------------------------------------------------------------
RECURSIVE Digits(_)
Digits(v) == IF v < 10 THEN << 48 + v >> ELSE Append(Digits(v \div 10), 48 + (v % 10))
Pad(v, w) == LET d == Digits(v) IN [ i \in 1..Max2(0, w - Len(d)) |-> 48 ] \o d

\* YYYY-MM-DD HH:MM:SS
Stamp(date, ck, del) ==
    Pad(date[1], 4) \o << del >> \o Pad(date[2], 2) \o << del >> \o Pad(date[3], 2) \o << 32 >>
    \o Pad(ck[1], 2) \o << 58 >> \o Pad(ck[2], 2) \o << 58 >> \o Pad(ck[3], 2)

\* w spells the ticks u of a resolution F as a decimal fraction of a second
SpellsFraction(w, F, u) ==
    \/ w = << >> /\ u = 0 /\ F = 1
    \/ /\ Len(w) >= 2 /\ w[1] = 46 /\ Len(w) <= 10
       /\ \A i \in 2..Len(w) : IsDigit(w[i])
       /\ Frac(w, 2, Len(w) + 1, F) = u
       /\ \A i \in 2..Len(w) : i - 1 > Len(Digits(F)) - 1 => w[i] = 48

\* strftime_ymd_hmfs and strftime_ymd_hms
IsStampF(w, date, ck, F, del) ==
    LET s == Stamp(date, ck, del) IN
    /\ Len(w) >= Len(s) /\ SubSeq(w, 1, Len(s)) = s
    /\ SpellsFraction(SubSeq(w, Len(s) + 1, Len(w)), F, ck[4])
IsStamp(w, date, ck, del) == w = Stamp(date, ck, del)

\* free-form outputs: the numbers in the text, in order
RECURSIVE Numbers(_, _)
Numbers(w, p) ==
    IF p > Len(w) THEN << >>
    ELSE IF ~IsDigit(w[p]) THEN Numbers(w, p + 1)
    ELSE LET q == SkipDigits(w, p) IN
         << SubSeq(w, p, q - 1) >> \o Numbers(w, q)
Spells(w, date, ck, F) ==
    LET ns == Numbers(w, 1)
        v(i) == DigitsVal(ns[i], 1, Len(ns[i]) + 1, 0)
    IN  /\ Len(ns) \in {6, 7}
        /\ << v(1), v(2), v(3), v(4), v(5), v(6) >> = << date[1], date[2], date[3], ck[1], ck[2], ck[3] >>
        /\ SpellsFraction(IF Len(ns) = 7 THEN << 46 >> \o ns[7] ELSE << >>, F, ck[4])
=============================================================================
