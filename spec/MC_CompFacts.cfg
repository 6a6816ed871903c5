INIT Init
NEXT NextFacts
CONSTANTS
 Elements = {0, 1, 2}
 Emit = FALSE
INVARIANTS Sound Entailed RejectedRightly
CHECK_DEADLOCK FALSE
