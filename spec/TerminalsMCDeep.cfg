SPECIFICATION Spec
CONSTANTS
  Sessions = {1, 2}
  MaxLines = 3
  Stuck = 2
INVARIANTS TypeOK Own Once
PROPERTIES Answered Apart
CHECK_DEADLOCK FALSE
