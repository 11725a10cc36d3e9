------------------------------- MODULE Types --------------------------------
(* The typing discipline of the library: which expressions a client program *)
(* may contain.  Kinds are the eleven quantities, date-times and intervals  *)
(* over each second type, and the built-in integers.                        *)
EXTENDS Integers, Sequences

Sec == << "seconds", "milliseconds", "microseconds" >>          \* coarse to fine
SecTypes == { Sec[i] : i \in 1..3 }
Quantities == { "year", "month", "day_of_month", "day_of_year", "gps_week", "modified_julian_day",
                "hours", "minutes" } \cup SecTypes
Ints == { "int", "long", "short", "char", "unsigned", "ulong", "llong", "bool" }
DateTimes == { "dt_seconds", "dt_milliseconds", "dt_microseconds" }
Intervals == { "iv_seconds", "iv_milliseconds", "iv_microseconds" }
Kinds == Quantities \cup Ints \cup DateTimes \cup Intervals

Rank(s) == CHOOSE i \in 1..3 : Sec[i] = s
Coarser(a, b) == Rank(a) < Rank(b)                              \* a is coarser than b
Res(k) == CASE k \in { "dt_seconds", "iv_seconds" } -> 1
            [] k \in { "dt_milliseconds", "iv_milliseconds" } -> 2
            [] OTHER -> 3

Compare == { "eq", "ne", "lt", "le", "gt", "ge" }
Change  == { "assign", "pluseq", "minuseq" }
Sum     == { "plus", "minus" }
Combine == Compare \cup Change \cup Sum

(* Expressions no client program may contain. *)
Forbidden(f, a, b) ==
  \/ /\ a \in Quantities /\ b \in Quantities /\ a # b           \* two kinds of quantity
     /\ f \in Combine \cup { "convert" }
  \/ /\ a \in SecTypes /\ b \in SecTypes /\ Coarser(b, a)       \* a finer type from a coarser one
     /\ f = "construct"
  \/ /\ a \in DateTimes \cup Intervals /\ b \in DateTimes \cup Intervals
     /\ Res(a) # Res(b)                                         \* two resolutions
     /\ f \in Combine \cup { "convert" }
  \/ /\ f \in Sum                                               \* bare integers
     /\ \/ a \in Ints /\ b \notin Ints
        \/ b \in Ints /\ a \notin Ints
  \/ f \in { "make_dt", "make_iv" } /\ a \notin SecTypes        \* date-times over anything else

(* Expressions every client may rely on. *)
Offered(f, a, b) ==
  \/ f = "construct" /\ a \in SecTypes /\ b \in SecTypes /\ Coarser(a, b)
  \/ f \in { "make_dt", "make_iv" } /\ a \in SecTypes
=============================================================================
