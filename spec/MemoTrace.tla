----------------------------- MODULE MemoTrace ------------------------------
(***************************************************************************)
(* Takes recorded histories of calls through Memo.  A history is a list of *)
(* ended calls: fresh ones (the only call of a process), ones made after   *)
(* others, and ones made beside others on other threads.  known[c] is the  *)
(* result of call c, learnt from the first time it ended; F of Memo is     *)
(* whatever function the histories tell.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Calls == 1..98

VARIABLES i, k, known
Steps == Trace[i].out
TraceInit == i \in 1..Len(Trace) /\ k = 0 /\ known = [c \in Calls |-> 0]

If(b, reason) == IF b THEN {reason} ELSE {}
Reasons(s) == If(known[s.c] # 0 /\ known[s.c] # s.r, "the same call has another result (" \o s.how \o ")")
              \cup If(~s.same, "the call changed its arguments")
              \cup If(s.r = 0, "the call did not return (" \o s.how \o ")")
TraceNext ==
    /\ k < Len(Steps)
    /\ k' = k + 1 /\ i' = i
    /\ LET s == Steps[k + 1]
           bad == Reasons(s)
       IN  /\ known' = IF known[s.c] = 0 THEN [known EXCEPT ![s.c] = s.r] ELSE known
           /\ bad = {} \/ CSVWrite("%1$s", <<ToJson([id |-> Trace[i].id, step |-> k + 1, reasons |-> bad])>>, IOEnv.BAD)
TraceSpec == TraceInit /\ [][TraceNext]_<<i, k, known>>
=============================================================================
