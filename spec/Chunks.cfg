INIT MCInit
NEXT Next
CONSTANTS
  Clients = {1, 2}
INVARIANTS TypeOK OnTime
PROPERTY Gapless
CHECK_DEADLOCK FALSE
