CONSTANTS SHAPES = {"pair", "apart", "two", "markov"}
 CU = 2
 EMIT = FALSE
 STEPS = 3
 MAXN = 4
SPECIFICATION ESpec
INVARIANTS Distribution OracleStep OracleLik
PROPERTIES Monotone ZerosStay
CHECK_DEADLOCK FALSE
