SPECIFICATION Spec
INVARIANT Coherent
INVARIANT Functional
PROPERTY Isolated
PROPERTY Pure
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT H = {1, 2}
CONSTANT X = {x1, x2}
CONSTANT V = {0, 1}
CONSTANT Bad = {b}
CONSTANT Depth = @DEPTH@
CONSTANT Lazy = @LAZY@
