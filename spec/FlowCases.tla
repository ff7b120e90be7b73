----------------------------- MODULE FlowCases ------------------------------
(***************************************************************************)
(* A behaviour of Flow for every transition: the shortest way to a state,  *)
(* and the step.  loop: the step leaves the state as it was, so that such  *)
(* steps can follow one another in one history.                            *)
(***************************************************************************)
EXTENDS Flow, Json, CSV, IOUtils

(* The initial states are explored apart, each with one worker: TLC's workers    *)
(* race on values, such as hist, that are not part of the view                  *)
Start == IF leaked THEN (IF "o2" \in pin THEN 5 ELSE 4)
         ELSE (IF "o1" \in pin THEN 1 ELSE 0) + (IF "o2" \in pin THEN 2 ELSE 0)
(* with and without client ids; with them, under one of the initial states only *)
CaseInit == Init /\ (IF clients THEN 6 + (IF Start = 3 THEN 0 ELSE 10) ELSE Start) = atoi(IOEnv.SPLIT)
CaseSpec == CaseInit /\ [][Next]_<<vars, hist>>

Emit == CSVWrite("%1$s", <<ToJson([in |-> [pin |-> pin, leaked |-> leaked, clients |-> clients, steps |-> hist'], loop |-> vars' = vars, F |-> {}])>>, IOEnv.CASES)
=============================================================================
