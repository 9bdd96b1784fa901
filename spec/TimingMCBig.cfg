INIT Init
NEXT Next
CONSTANTS
  C = 3
  Rounds = 2
  Delays = {0, 1, 4}
  Ini = 7
INVARIANTS Accurate Exact
PROPERTY OnlyWhole
CHECK_DEADLOCK FALSE
