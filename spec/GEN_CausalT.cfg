CONSTANTS SHAPES = {"chain", "iv", "front"}
 CU = 2
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
