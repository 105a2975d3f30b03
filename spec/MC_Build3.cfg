CONSTANTS NN = 3
 DEPTH = 2
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Proper Distribution NeverFits SwapNever PlainFits Again Commute
PROPERTIES Atomic Frame
CHECK_DEADLOCK FALSE
