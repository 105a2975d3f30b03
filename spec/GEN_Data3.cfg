CONSTANTS NV = 3
 ROWS = 3
 MISS = {1}
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
