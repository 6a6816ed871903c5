INIT Init
NEXT Next
CONSTANT N = 3
INVARIANTS Members Sizes Reps
CHECK_DEADLOCK FALSE
