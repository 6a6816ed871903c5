INIT Init
NEXT Next
CONSTANTS
 Elements = {0, 1, 2, 3}
 Outside = {9}
 Names = {"x", "y"}
 Kind = "F"
 Emit = FALSE
INVARIANTS Sound RejectionsAreInert LabelsKept
CHECK_DEADLOCK FALSE
