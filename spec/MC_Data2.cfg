CONSTANTS NV = 2
 ROWS = 3
 MISS = {1, 2}
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Totals Marginal Swap Select Freq Cond Point Refusals
PROPERTIES OneMore
CHECK_DEADLOCK FALSE
