INIT Init
NEXT Next
CONSTANTS
  Ops = {1, 2, 3, 4}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
