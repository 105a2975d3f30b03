CONSTANTS NN = 4
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Weight Support NotStuck ChainRule
CHECK_DEADLOCK FALSE
