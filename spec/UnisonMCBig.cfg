INIT Init
NEXT Next
INVARIANT Agree
CONSTANTS
  D = 4
  W = 6
  Ready = 3
  Length = 3
  Gap = 5
  Horizon = 22
  Skews = {0, 7}
  Players = {"a"}
