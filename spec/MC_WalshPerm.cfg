INIT Init
NEXT Next
CONSTANT MaxDeg = 3
INVARIANTS AsPermutations Inverses Transposes Powers Faithful MinimalPeriod OddDeterminant Places RoundTrips
CHECK_DEADLOCK FALSE
