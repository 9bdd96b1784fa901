CONSTANTS
  Sec = 1
  Buf = 2
  Fuzz = 0
  Total = 4
  Chunked = 2
  Start = 5
  End0 = 16
  Syncs = 2
  Offs = {0,1}
  Stalls = {0, 3}
  Hold = FALSE
  Songs = {}
INIT Init
NEXT Next
INVARIANT Right
INVARIANT Ends
CHECK_DEADLOCK FALSE
