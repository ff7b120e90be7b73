------------------------------- MODULE Clock -------------------------------
(***************************************************************************)
(* Instants as <<day, second of the day, nanosecond>>.  TLC's integers     *)
(* have 32 bits, an instant of the library has 96, so an instant is kept   *)
(* in three parts, the first negative before 1970.  A nanosecond part of   *)
(* 10^9 or more is the library's representation of a leap second.          *)
(***************************************************************************)
EXTENDS Integers

SecsPerDay == 86400

(* a < b in time order *)
Before(a, b) ==
    \/ a[1] < b[1]
    \/ a[1] = b[1] /\ a[2] < b[2]
    \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]

AtOrBefore(a, b) == a = b \/ Before(a, b)

(* instant a, plus a lifetime of ttl.d days and ttl.s seconds (ttl.s < 86400) *)
Plus(a, ttl) ==
    LET s == a[2] + ttl.s
    IN  IF s >= SecsPerDay THEN <<a[1] + ttl.d + 1, s - SecsPerDay, a[3]>>
                           ELSE <<a[1] + ttl.d, s, a[3]>>

(* The last instant the library can represent, +262143-12-31T23:59:59.999999999Z *)
MaxInstant == <<95026601, 86399, 999999999>>
=============================================================================
