SPECIFICATION Spec
CONSTANTS
  Block = 2
  NB = 1
  Idle = 3
  MaxX = 9
  MaxOps = 4
  Fs <- Files
INVARIANT TypeOK
PROPERTY Refines
PROPERTY GoesOn
CHECK_DEADLOCK FALSE
