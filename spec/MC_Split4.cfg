INIT Init
NEXT Next
CONSTANTS
  N = 4
  Every = 97
INVARIANTS SplitLaw BlightLaw GeometryLaw FissionLaw
CHECK_DEADLOCK FALSE
