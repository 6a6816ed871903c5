INIT Init
NEXT Next
CONSTANTS
 Depth = 4
 Kinds = {1, 2}
 Emit = FALSE
 Sharing = FALSE
INVARIANTS Sound Kept
CHECK_DEADLOCK FALSE
