CONSTANTS NN = 3
 PS = {1, 2}
 STEPS = 1
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS SameFamily SameBlanket Representatives Distribution OracleStep
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
