INIT Init
NEXT Next
CONSTANT N = 5
INVARIANTS BooleanAlgebra Orders Numbers
CHECK_DEADLOCK FALSE
