CONSTANTS SHAPES = {"pair", "apart", "two", "markov"}
 CU = 2
 EMIT = TRUE
 STEPS = 0
 MAXN = 4
SPECIFICATION ESpec
INVARIANTS EmitM
CHECK_DEADLOCK FALSE
