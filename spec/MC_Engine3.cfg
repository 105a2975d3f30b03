CONSTANTS SHAPES = {"pair", "markov", "two"}
 CU = 2
 EMIT = FALSE
 DEPTH = 3
 KINDS = {"vv", "vc", "cc"}
SPECIFICATION ESpec
INVARIANTS Answers Pending FreshFirst
PROPERTIES Alone Refused
CHECK_DEADLOCK FALSE
