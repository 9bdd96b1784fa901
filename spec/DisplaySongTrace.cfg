INIT Init
NEXT Next
CONSTANTS
  Sec = 1000000
  Ms = 1000
  Parts = {"song"}
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
