INIT Init
NEXT Next
CONSTANT Top = 64
CONSTANT N = 3
INVARIANTS Arithmetic Orders Lines MaskOrder
CHECK_DEADLOCK FALSE
