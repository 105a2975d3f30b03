CONSTANTS REQS = {0, 1, 2, 3}
 MAXREQ = 2
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
