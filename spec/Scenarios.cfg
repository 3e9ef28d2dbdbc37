SPECIFICATION Spec
INVARIANT Sound
CHECK_DEADLOCK FALSE
CONSTANT Family = "@FAMILY@"
CONSTANT Want = @WANT@
CONSTANT Seed = @SEED@
