INIT ImplInit
NEXT ImplNext
CONSTANTS
  Msgs = {1, 2, 3}
  Sender <- MCSender
  Size <- MCSize
  Room = 3
INVARIANTS Arrives Refuses
PROPERTY Once
CHECK_DEADLOCK FALSE
