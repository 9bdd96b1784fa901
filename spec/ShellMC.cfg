INIT Init
NEXT Next
CONSTANTS
  MaxLine = 7
  MaxWord = 3
INVARIANTS RoundTrip Stable Completable
CHECK_DEADLOCK FALSE
