CONSTANTS NN = 3
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS RoundTrip Truncated Proper
CHECK_DEADLOCK FALSE
