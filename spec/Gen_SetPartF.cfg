INIT Init
NEXT Next
CONSTANTS
 Elements <- ElementsF
 Outside <- OutsideF
 Names = {"x", "y"}
 Kind = "F"
 Emit = TRUE
INVARIANTS Sound
CHECK_DEADLOCK FALSE
