INIT Init
NEXT Next
CONSTANT N = 3
INVARIANTS Unique Arguments Tables Order Definitions Substitution
CHECK_DEADLOCK FALSE
