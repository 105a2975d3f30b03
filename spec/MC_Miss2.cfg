CONSTANTS NN = 2
 PS = {1, 2, 3, 4}
 STEPS = 2
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS SameFamily SameBlanket Representatives Distribution OracleStep
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
