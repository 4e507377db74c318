INIT SimInit
NEXT SimNext
CONSTANTS
  Procs = {1, 2}
  Keys = {"k1", "k2"}
  Weights = {1}
  MaxEntries = 100
  MaxBytes = 1000
  MaxClock = 12
  Waiting = TRUE
  Damages = {"truncate"}
  Crashes = FALSE
  Single = FALSE
  Depth = 30
INVARIANTS OneOwner NotStored Limits NoStuckWaiter EmitH
CHECK_DEADLOCK FALSE
