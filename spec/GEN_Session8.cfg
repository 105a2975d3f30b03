CONSTANTS NM = 3
 DEPTH = 8
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
