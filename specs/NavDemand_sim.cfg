INIT SimInit
NEXT SimNext
CONSTANTS
  Keys = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t"}
  Cap = 16
  MaxGen = 2
  MaxTickets = 60
  Depth = 50
INVARIANTS BoundedWork Disjoint Backed EmitH
CHECK_DEADLOCK FALSE
