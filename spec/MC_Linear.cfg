INIT Init
NEXT Next
CONSTANT N = 2
INVARIANTS LinearLaw NobleLaw Pairs
CHECK_DEADLOCK FALSE
