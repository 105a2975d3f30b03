CONSTANTS SEEDS = {1, 2}
 ACTS = {1, 2, 3}
 DEPTH = 9
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
