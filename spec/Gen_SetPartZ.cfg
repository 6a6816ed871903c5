INIT Init
NEXT Next
CONSTANTS
 Elements <- ElementsZ
 Outside <- OutsideZ
 Names = {"x", "y"}
 Kind = "Z"
 Emit = TRUE
INVARIANTS Sound
CHECK_DEADLOCK FALSE
