INIT Init
NEXT Next
CONSTANTS
 Elements <- ElementsZ
 Emit = TRUE
INVARIANTS Sound
CHECK_DEADLOCK FALSE
