CONSTANTS SHAPES = {7}
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS TableOK Total Declared Canonical
CHECK_DEADLOCK FALSE
