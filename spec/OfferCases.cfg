INIT Init
NEXT Next
INVARIANT Conforms Iff Determined Emit
CHECK_DEADLOCK FALSE
