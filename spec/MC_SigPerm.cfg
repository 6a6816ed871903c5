INIT Init
NEXT Next
CONSTANT MaxLen = 3
INVARIANTS Matrices Inverses Actions Numbers Vertices RoundTrips Unsigned
CHECK_DEADLOCK FALSE
