INIT Init
NEXT Next
VIEW View
CONSTANTS
  Procs = {1, 2}
  Keys = {"k1", "k2"}
  Weights = {1}
  MaxEntries = 100
  MaxBytes = 1000
  MaxClock = 3
  Waiting = TRUE
  Damages = {"truncate"}
  Crashes = FALSE
  Single = FALSE
INVARIANTS OneOwner NotStored Limits NoStuckWaiter
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
