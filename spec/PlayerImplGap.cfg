CONSTANTS
  Sec = 1
  Buf = 2
  Fuzz = 0
  Total = 8
  Chunked = 2
  Start = 5
  End0 = 16
  Syncs = 1
  Offs = {0}
  Stalls = {0}
  Hold = FALSE
  Songs = {{0,7}}
INIT Init
NEXT Next
INVARIANT Right
INVARIANT Ends
CHECK_DEADLOCK FALSE
