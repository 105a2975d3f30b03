CONSTANTS NN = 3
 PS = {1,2}
 DEPTH = 3
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Proper LastOK BackOK
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
