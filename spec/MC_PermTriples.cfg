INIT Init
NEXT Next
CONSTANTS
 MaxLen = 4
 MaxPer = 3
 Triples = TRUE
INVARIANTS IsCanonical Associative
CHECK_DEADLOCK FALSE
