CONSTANTS NN = 2
 PS = {1}
 EVS = {1}
 EMIT = TRUE
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
