INIT Init
NEXT Next
CONSTANTS
  Slack = 1030
  IdleMax = 33300
INVARIANT TypeOK
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
