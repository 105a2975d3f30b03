CONSTANTS SHAPES = {"pair", "markov", "two", "apart"}
 CU = 2
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS WorldsOK DoOK TruncOK TwinOK Twin2OK NecOK QOK
CHECK_DEADLOCK FALSE
