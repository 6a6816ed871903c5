INIT Init
NEXT Next
CONSTANTS
 Elements <- ElementsN
 Emit = FALSE
INVARIANTS Sound ViewsAgree Rebuilt
CHECK_DEADLOCK FALSE
