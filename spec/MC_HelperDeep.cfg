SPECIFICATION Spec
CONSTANTS
  Numbers = 520
  Length = 4
  Values = 3
INVARIANTS
  Logarithms
  Decimals
  EvilOdious
  Arities
  Lcms
  Pascal
  Factoradics
  Determinants
  SierpinskiRows
  Tables
  Connectives
  Partitions
  Orders
  RingSums
  ApartTogether
  Occurrences
  Colex
  Folds
  Outlines
CHECK_DEADLOCK FALSE
