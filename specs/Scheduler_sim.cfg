INIT SimInit
NEXT SimNext
CONSTANTS
  Limit = 2
  Roots = {"/p/a", "/p/b", "/p/c"}
  MaxReprio = 6
  MaxTickets = 14
  Depth = 40
INVARIANTS WithinLimit OnePerProject BurstBounded WorkConserving EmitH
CHECK_DEADLOCK FALSE
