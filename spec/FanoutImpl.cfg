INIT ImplInit
NEXT ImplNext
CONSTANTS
  Clients = {c1, c2}
  Channels = {a, m}
  Casts = {b1}
INVARIANTS TypeOK Sound Reported Owed Forgotten
CHECK_DEADLOCK FALSE
