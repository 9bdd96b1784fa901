INIT Init
NEXT Next
CONSTANTS
  Ops = {1, 2, 3, 4}
  Lock = TRUE
  Plan <- MCPlan
INVARIANT Same
CHECK_DEADLOCK FALSE
