----------------------------- MODULE TotalCases -----------------------------
(***************************************************************************)
(* Every document with every trouble, and (DEPTH 2) every pair of them;    *)
(* and every octet at the start of every text, or alone in it.             *)
(***************************************************************************)
EXTENDS Total, Json, CSV, IOUtils

Places == {<<d, t>> : d \in Documents, t \in Troubles \ {"none"}}
Texts == {"token_request", "token_options", "offer", "metadata", "header", "claims", "did_document", "options", "response", "request", "proof"}
Octets == {<<d, "octet " \o ToString(n)>> : d \in Texts, n \in 0..255} \cup {<<d, "only " \o ToString(n)>> : d \in {"header", "claims"}, n \in 0..255}
VARIABLES c, done
Init == /\ done = FALSE
        /\ c \in {<<p>> : p \in Places \cup Octets} \cup (IF IOEnv.DEPTH = "1" THEN {<<>>} ELSE {<<p, q>> : p \in Places, q \in Places})
Next == ~done /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, done>>
Emit == done => CSVWrite("%1$s", <<ToJson([in |-> c, F |-> {}])>>, IOEnv.CASES)
=============================================================================
