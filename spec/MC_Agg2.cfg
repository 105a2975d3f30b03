CONSTANTS REQS = {0, 1, 2, 3}
 MAXREQ = 2
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Counted Matched Once
PROPERTIES Grows NothingPartial
CHECK_DEADLOCK FALSE
