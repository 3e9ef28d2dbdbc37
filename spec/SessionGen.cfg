SPECIFICATION Spec
INVARIANT TypeOK
PROPERTY ChangeForgets
PROPERTY OneAtATime
CHECK_DEADLOCK FALSE
CONSTANT Depth = @DEPTH@
CONSTANT Long = @LONG@
@VIEW@
