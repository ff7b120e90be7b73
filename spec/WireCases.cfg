SPECIFICATION Spec
INVARIANT DropFound OtherFound SelfKept Emit
CHECK_DEADLOCK FALSE
