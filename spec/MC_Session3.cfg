CONSTANTS NM = 3
 DEPTH = 3
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Fresh Refusal Answered Envelope
PROPERTIES Wider
CHECK_DEADLOCK FALSE
