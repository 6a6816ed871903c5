INIT Init
NEXT Next
CONSTANTS
 Elements <- ElementsN
 Emit = TRUE
INVARIANTS Sound
CHECK_DEADLOCK FALSE
