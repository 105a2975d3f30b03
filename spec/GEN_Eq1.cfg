CONSTANTS SHAPES = {1, 2, 3, 4, 5, 6}
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
