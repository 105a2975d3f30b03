CONSTANTS SHAPES = {1, 2, 3, 4, 5, 6, 8}
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS TableOK Total Declared Canonical
CHECK_DEADLOCK FALSE
