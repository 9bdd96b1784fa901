INIT Init
NEXT Next
CONSTANTS
  C = 2
  Rounds = 2
  Delays = {0, 1, 3}
  Ini = 7
INVARIANTS Accurate Exact
PROPERTY OnlyWhole
CHECK_DEADLOCK FALSE
