INIT Init
NEXT Next
CONSTANTS
  Break = 99999
  Unit = 128
  Full = 32768
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
