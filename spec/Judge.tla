------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* Reads a recorded trace and takes it step by step: one state per event.  *)
(* Events that break the property are written to BAD.  The calls recorded  *)
(* here do not depend on each other (that they do not is property C20, see *)
(* Memo), so the trace is cut into pieces that are taken in parallel.      *)
(***************************************************************************)
EXTENDS Verdicts, Json, CSV, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Piece == 250

VARIABLE i
Init == i \in {k \in 1..Len(Trace) : k % Piece = 1}
Next == i < Len(Trace) /\ i % Piece # 0 /\ i' = i + 1
Spec == Init /\ [][Next]_i

Bad == Verdict(IOEnv.PROP, Trace[i])
Judged == LET b == Bad IN b = {} \/ CSVWrite("%1$s", <<ToJson([id |-> Trace[i].id, reasons |-> b])>>, IOEnv.BAD)
=============================================================================
