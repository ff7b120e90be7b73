INIT Init
NEXT Next
INVARIANT Conforms AcceptIff FaultsIff Emit
CHECK_DEADLOCK FALSE
