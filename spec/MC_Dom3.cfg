CONSTANTS MAXV = 3
 MAXC = 3
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Complete Lex Located Numeric Twice
CHECK_DEADLOCK FALSE
