CONSTANTS SHAPES = {"pair"}
 CU = 3
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
