CONSTANTS SHAPES = {"pair", "markov", "two", "apart"}
 CU = 2
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
