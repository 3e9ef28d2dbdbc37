SPECIFICATION Spec
INVARIANT Order
INVARIANT OneEach
INVARIANT Result
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANT MaxLoops = @LOOPS@
CONSTANT Wrong = @WRONG@
