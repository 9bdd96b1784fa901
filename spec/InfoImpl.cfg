INIT Init
NEXT Next
CONSTANTS
  Clients = {1}
  Anns <- MCAnns
  Snapshot = TRUE
INVARIANTS Learns Keeps
CHECK_DEADLOCK FALSE
