INIT Init
NEXT Next
VIEW View
CONSTANTS
  MaxGen = 2
  MaxSeq = 5
  Phases = {2, 3, 6, 9, 11}
  Progress <- ProgressVal
INVARIANT OneCurrent
PROPERTY Monotone
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
