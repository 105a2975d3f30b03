CONSTANTS VMAX = 2
 ALLROLES = FALSE
 DEPTH = 2
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS HeapOK LastOK Laws ListedOK
PROPERTY AppendOnly
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
