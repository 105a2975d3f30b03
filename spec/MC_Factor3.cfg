CONSTANTS VMAX = 3
 ALLROLES = TRUE
 DEPTH = 1
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS HeapOK LastOK Laws ListedOK
PROPERTY AppendOnly
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
