INIT Init
NEXT Next
CONSTANTS
 Depth = 5
 Places = {1, 2, 3}
 Emit = TRUE
 Memories = FALSE
INVARIANTS Sound
CHECK_DEADLOCK FALSE
