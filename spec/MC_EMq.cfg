CONSTANTS SHAPES = {"pair", "apart"}
 CU = 2
 EMIT = FALSE
 STEPS = 1
 MAXN = 3
SPECIFICATION ESpec
INVARIANTS Distribution OracleStep OracleLik
PROPERTIES Monotone ZerosStay
CHECK_DEADLOCK FALSE
