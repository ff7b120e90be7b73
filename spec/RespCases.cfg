INIT Init
NEXT Next
INVARIANT Once NotBoth WindowFree Emit
CHECK_DEADLOCK FALSE
