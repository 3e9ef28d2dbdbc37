SPECIFICATION Spec
INVARIANT Inv
CONSTANT NS = @NS@
CHECK_DEADLOCK FALSE
