INIT Init
NEXT Next
CONSTANTS
  Clients = {1,2,3,4,5,6,7,8,9,10}
INVARIANT Inv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
