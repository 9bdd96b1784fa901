INIT Init
NEXT Next
CONSTANTS
  Ops = {1, 2, 3, 4, 5, 6}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
