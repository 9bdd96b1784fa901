INIT ImplInit
NEXT ImplNext
CONSTANTS
  Clients = {c1, c2}
  Channels = {a}
  Casts = {b1, b2}
INVARIANTS TypeOK Sound Reported Owed Forgotten
CHECK_DEADLOCK FALSE
