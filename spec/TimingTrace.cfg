INIT Init
NEXT Next
CONSTANTS
  Tol = 300
  Fuzz = 20
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
