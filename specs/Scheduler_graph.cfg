INIT Init
NEXT Next
VIEW View
CONSTANTS
  Limit = 1
  Roots = {"/p/a", "/p/b"}
  MaxReprio = 1
  MaxTickets = 3
INVARIANTS WithinLimit OnePerProject BurstBounded WorkConserving
PROPERTIES FairToBackground SameClassFifo
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
