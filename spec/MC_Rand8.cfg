CONSTANTS SEEDS = {1, 2}
 ACTS = {1, 2, 3}
 DEPTH = 8
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Repeats Discriminates
CHECK_DEADLOCK FALSE
