CONSTANTS
  Sec = 1
  Buf = 2
  Fuzz = 0
  Total = 3
  Chunked = 1
  Start = 5
  End0 = 14
  Syncs = 1
  Offs = {0}
  Stalls = {0, 3}
  Hold = FALSE
  Songs = {}
INIT Init
NEXT Next
INVARIANT Right
INVARIANT Ends
CHECK_DEADLOCK FALSE
