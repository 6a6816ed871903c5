INIT Init
NEXT Next
CONSTANTS
 MaxLen = 4
 MaxPer = 4
 Triples = FALSE
INVARIANTS IsCanonical Pointwise Associative Inverses Extensional OrderLeast Powers Action RankOrder Schoute
CHECK_DEADLOCK FALSE
