CONSTANTS MAXV = 4
 MAXC = 2
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Complete Lex Located Numeric Twice
CHECK_DEADLOCK FALSE
