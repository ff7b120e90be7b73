----------------------------- MODULE MemoCases ------------------------------
(***************************************************************************)
(* Orders of calls: every sequence of DEPTH calls out of Symbols (calls    *)
(* whose arguments resemble each other), and every call made Burst times   *)
(* in a row and followed by all the others.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils

Symbols == 1..98
Depth == atoi(IOEnv.DEPTH)

Burst == 300
Insist(c) == [k \in 1..Burst |-> c] \o [k \in Symbols |-> k]

VARIABLE seq
Init == seq \in {<<>>} \cup {Insist(c) : c \in Symbols}
Next == Len(seq) < Depth /\ \E c \in Symbols : seq' = Append(seq, c)
Spec == Init /\ [][Next]_seq
Emit == Len(seq) < Depth \/ CSVWrite("%1$s", <<ToJson([in |-> seq, F |-> {}])>>, IOEnv.CASES)
=============================================================================
