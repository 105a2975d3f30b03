CONSTANTS NM = 3
 DEPTH = 4
 EMIT = FALSE
SPECIFICATION Spec
INVARIANTS Fresh Refusal Answered Envelope
PROPERTIES Wider
CHECK_DEADLOCK FALSE
