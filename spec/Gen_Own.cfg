INIT Init
NEXT Next
CONSTANTS
 Depth = 3
 Kinds = {1, 2, 3}
 Emit = TRUE
 Sharing = FALSE
INVARIANTS Sound Kept
CHECK_DEADLOCK FALSE
