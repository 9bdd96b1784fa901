INIT Init
NEXT Next
CONSTANTS
  Sec = 1000000
  Buf = 100000
  Fuzz = 2000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
