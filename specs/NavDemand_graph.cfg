INIT Init
NEXT Next
VIEW View
CONSTANTS
  Keys = {"a", "b"}
  Cap = 16
  MaxGen = 2
  MaxTickets = 2
INVARIANTS BoundedWork Disjoint Backed
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
