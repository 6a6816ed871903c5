INIT Init
NEXT Next
CONSTANT N = 2
INVARIANTS Unique Arguments Tables Pointwise Order Definitions TwinAdds Action Substitution
CHECK_DEADLOCK FALSE
