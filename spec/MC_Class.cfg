INIT Init
NEXT Next
CONSTANT N = 2
INVARIANTS Members Sizes Reps Disjoint
CHECK_DEADLOCK FALSE
