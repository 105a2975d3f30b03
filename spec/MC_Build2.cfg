CONSTANTS NN = 2
 DEPTH = 3
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Proper Distribution NeverFits SwapNever PlainFits Again Commute
PROPERTIES Atomic Frame
CHECK_DEADLOCK FALSE
