SPECIFICATION Spec
INVARIANT Conforms FaultsIff Complete PreConforms SameSubject AcceptMeans Emit
CHECK_DEADLOCK FALSE
