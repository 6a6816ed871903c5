INIT Init
NEXT Next
CONSTANTS
  N = 2
  Every = 1
INVARIANTS SplitLaw BlightLaw GeometryLaw FissionLaw
CHECK_DEADLOCK FALSE
