INIT Init
NEXT Next
CONSTANTS
  Clients = {11, 12}
  Cmds = {1, 2}
  None = 99
  Again = TRUE
INVARIANT Settles
CHECK_DEADLOCK FALSE
