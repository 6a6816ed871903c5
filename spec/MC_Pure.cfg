INIT Init
NEXT Next
CONSTANTS
 Depth = 4
 Places = {1, 2, 3}
 Emit = FALSE
 Memories = TRUE
INVARIANTS Sound Seen
CHECK_DEADLOCK FALSE
