CONSTANTS NN = 3
 PS = {1}
 DEPTH = 2
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Proper LastOK BackOK
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
