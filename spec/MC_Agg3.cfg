CONSTANTS REQS = {0, 1, 2, 3, 4}
 MAXREQ = 3
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Counted Matched Once
PROPERTIES Grows NothingPartial
CHECK_DEADLOCK FALSE
