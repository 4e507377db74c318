CONSTANTS
  Names = {"A", "B"}
  ValNames = {"B", "X"}
  NBlocks = 3
  MaxOpen = 2
  PathLen = 2
  RefLen = 3
  Sample = 3000
  Emitting = TRUE
INIT Init
NEXT Next
INVARIANTS ResolvedIsDefined AbsoluteIsTop PlainNesting Hiding Emit
CHECK_DEADLOCK FALSE
