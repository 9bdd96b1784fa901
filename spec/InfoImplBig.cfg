INIT Init
NEXT Next
CONSTANTS
  Clients = {1}
  Anns <- MCAnnsBig
  Snapshot = TRUE
INVARIANTS Learns Keeps
CHECK_DEADLOCK FALSE
