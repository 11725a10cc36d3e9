------------------------------ MODULE MCReader -------------------------------
(* All short texts over a small alphabet, and all texts one or two edits and *)
(* a truncation away from a well-formed one, in every layout.                *)
EXTENDS ReaderImpl
CONSTANTS LenShort, LenClock, NEdits

Strings(A, n) == UNION { [ 1..k -> A ] : k \in 0..n }
Digit == 49
Dates == { << l, 1, s >> : l \in { "ymd", "ydoy" }, s \in Strings({ 48, 49, 51, 45, 32 }, LenShort) }
Clocks == { << l, 1000, s >> : l \in { "ydoy_hms" }, s \in Strings({ 49, 45, 46 }, LenClock) }

\* 1-may-1 1:1:1.5, 4-2-29 1:1:1.5, 4-366 1:1:1.5
Base == { << "yod_hms",  << 49,45,77,97,121,45,49,32,49,58,49,58,49,46,53 >> >>,
          << "ymd_hms",  << 52,45,50,45,50,57,32,49,58,49,58,49,46,53 >> >>,
          << "ydoy_hms", << 52,45,51,54,54,32,49,58,49,58,49,46,53 >> >> }
Alpha == { 57, 45, 46, 120, 32 }
Edit1(s) == { [ s EXCEPT ![i] = a ] : i \in DOMAIN s, a \in Alpha }
            \cup { SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)) : i \in DOMAIN s }
            \cup { SubSeq(s, 1, i - 1) \o << a >> \o SubSeq(s, i, Len(s)) : i \in DOMAIN s, a \in { 45, 57 } }
            \cup { SubSeq(s, 1, i) : i \in 0..Len(s) }
RECURSIVE Edits(_, _)
Edits(S, n) == IF n = 0 THEN S ELSE Edits(S \cup UNION { Edit1(s) : s \in S }, n - 1)
Mutants == UNION { { << b[1], 1000, s >> : s \in Edits({ b[2] }, NEdits) } : b \in Base }

MCTexts == Dates \cup Clocks \cup Mutants
MCBehind == { << >>, << 45,49,45,49,32,49,58,49,58,49 >>, << 53 >> }
==============================================================================
