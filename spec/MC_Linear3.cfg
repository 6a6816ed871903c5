INIT Init
NEXT Next
CONSTANT N = 3
INVARIANTS LinearLaw NobleLaw Pairs
CHECK_DEADLOCK FALSE
