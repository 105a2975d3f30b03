CONSTANTS NN = 4
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS TopoOK DSepOK DSepSets BlanketOK BarrenOK ComponentsOK ElimOK GreedyOK
CHECK_DEADLOCK FALSE
