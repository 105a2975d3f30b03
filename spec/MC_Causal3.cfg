CONSTANTS SHAPES = {"pair"}
 CU = 3
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS WorldsOK DoOK TruncOK TwinOK Twin2OK NecOK QOK
CHECK_DEADLOCK FALSE
