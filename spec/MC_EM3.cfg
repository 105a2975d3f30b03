CONSTANTS SHAPES = {"pair"}
 CU = 3
 EMIT = FALSE
 STEPS = 2
 MAXN = 3
SPECIFICATION ESpec
INVARIANTS Distribution OracleStep OracleLik
PROPERTIES Monotone ZerosStay
CHECK_DEADLOCK FALSE
