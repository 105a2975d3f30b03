CONSTANTS SHAPES = {"pair", "markov", "two", "apart", "iv", "front", "chain"}
 CU = 2
 EMIT = TRUE
 DEPTH = 8
 KINDS = {"vv", "vc", "cc"}
SPECIFICATION ESpec
INVARIANTS EmitE
CHECK_DEADLOCK FALSE
