INIT Init
NEXT Next
CONSTANTS
  Names = {"x"}
  MaxLen = 6
  MaxDepth = 3
  Kinds = {"def", "class", "block"}
  MinReads = 1
CONSTRAINT Feasible
INVARIANTS TypeOK Closed Partition Emit
CHECK_DEADLOCK FALSE
