CONSTANTS NN = 3
 DEPTH = 2
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
