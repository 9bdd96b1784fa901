INIT Init
NEXT Next
CONSTANTS
  Ops = {1, 2, 3, 4}
  Cap = 2
  Wake = "all"
  Rounds = 6
INVARIANTS Faithful NoLostWakeup Bounded
CHECK_DEADLOCK FALSE
