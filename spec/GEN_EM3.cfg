CONSTANTS SHAPES = {"pair"}
 CU = 3
 EMIT = TRUE
 STEPS = 0
 MAXN = 3
SPECIFICATION ESpec
INVARIANTS EmitM
CHECK_DEADLOCK FALSE
