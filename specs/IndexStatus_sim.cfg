INIT InitS
NEXT NextS
CONSTANTS
  MaxGen = 6
  MaxSeq = 60
  Phases = {2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
  Progress <- ProgressVal
  Depth = 40
INVARIANTS OneCurrent EmitH
CHECK_DEADLOCK FALSE
