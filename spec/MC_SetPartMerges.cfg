INIT Init
NEXT NextMerges
CONSTANTS
 Elements = {0, 1, 2, 3}
 Outside = {9}
 Names = {"x"}
 Kind = "F"
 Emit = FALSE
INVARIANTS Sound ExactlyMerged
CHECK_DEADLOCK FALSE
