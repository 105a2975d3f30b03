CONSTANTS NN = 3
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Weight Support NotStuck ChainRule
CHECK_DEADLOCK FALSE
