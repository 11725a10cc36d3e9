----------------------------- MODULE MCThreads ------------------------------
EXTENDS Threads, Gregorian
\* a day of a small calendar: the operation is a conversion the library does
MCOp(a) == << YearDoyOf(NormDay(0, a)), DateOf(NormDay(0, a)) >>
MCKey(a) == YearDoyOf(NormDay(0, a))[1]
MCArg == { 51543, 51544, 51603 }
MCNone == -1
=============================================================================
