CONSTANTS VMAX = 2
 ALLROLES = FALSE
 DEPTH = 2
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
