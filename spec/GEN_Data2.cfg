CONSTANTS NV = 2
 ROWS = 3
 MISS = {1, 2}
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
