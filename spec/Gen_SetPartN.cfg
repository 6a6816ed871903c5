INIT Init
NEXT Next
CONSTANTS
 Elements <- ElementsN
 Outside <- OutsideN
 Names = {"x", "y"}
 Kind = "N"
 Emit = TRUE
INVARIANTS Sound
CHECK_DEADLOCK FALSE
