CONSTANTS NN = 2
 PS = {1}
 DEPTH = 3
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
