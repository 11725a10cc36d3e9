------------------------------ MODULE MCMonths -------------------------------
(* The month recogniser, one letter at a time, while the letters so far are  *)
(* a prefix of a name.  turkish: in the program's locale the lower case      *)
(* of I is not i; the code compares with a lower case of its own (Folding =  *)
(* "ascii"), not the locale's (as it once did, "locale").                    *)
EXTENDS Text
CONSTANTS Alphabet, MaxLen, Folding
VARIABLES w, turkish
Init == w = << >> /\ turkish \in BOOLEAN
Fold(ch) == IF Folding = "locale" /\ turkish /\ ch = 73 THEN 253 ELSE ToLower(ch)
Same(s, z) == Len(s) = Len(z) /\ \A i \in DOMAIN s : Fold(s[i]) = Fold(z[i])
Recognised(s) == { m \in 1..12 : Same(s, ShortNames[m]) \/ Same(s, LongNames[m]) }
Names == { ShortNames[m] : m \in 1..12 } \cup { LongNames[m] : m \in 1..12 }
Prefix(s, z) == Len(s) <= Len(z) /\ SubSeq(z, 1, Len(s)) = s
Next == /\ Len(w) < MaxLen
        \* a word that is no prefix of a name is not followed further
        /\ LET x == Lower(w) IN \E z \in Names : Prefix(x, z)
        /\ \E ch \in Alphabet : w' = Append(w, ch)
        /\ UNCHANGED turkish
Spec == Init /\ [][Next]_<< w, turkish >>
\* what the code recognises is what the text names
Exactly == Recognised(w) = Named(w)
\* a word names one month at most, whatever its case, and only as a whole
AtMostOne == \A m, k \in Named(w) : m = k
ByName == Named(w) # {} <=> Lower(w) \in Names
CaseBlind == Named(w) = Named(Lower(w)) /\ Named(w) = Named([ i \in DOMAIN w |-> IF IsLower(w[i]) THEN w[i] - 32 ELSE w[i] ])
ShortOnly == \A m \in Named(w) : Len(w) \in { 3, Len(LongNames[m]) }
\* the reported names are recognised as the months they are reported for
RoundTrip == w = << >> => \A m \in 1..12 : Named(Capital(ShortName(m))) = { m } /\ Named(Capital(LongNames[m])) = { m }
==============================================================================
