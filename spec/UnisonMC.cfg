INIT Init
NEXT Next
INVARIANT Agree
CONSTANTS
  D = 2
  W = 3
  Ready = 2
  Length = 2
  Gap = 2
  Horizon = 13
  Skews = {0, 7}
  Players = {"a"}
