CONSTANTS VMAX = 3
 ALLROLES = TRUE
 DEPTH = 1
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
