CONSTANTS MAXV = 3
 MAXC = 2
 EMIT = TRUE
SPECIFICATION Spec
INVARIANTS Complete Lex Located Numeric Twice Emit
CHECK_DEADLOCK FALSE
