CONSTANTS NN = 3
 PS = {1}
 STEPS = 0
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS EmitM
CHECK_DEADLOCK FALSE
