INIT Init
NEXT Next
CONSTANTS
  Ops = {1, 2, 3}
  Cap = 1
  Wake = "all"
  Rounds = 5
INVARIANTS Faithful NoLostWakeup Bounded
CHECK_DEADLOCK FALSE
