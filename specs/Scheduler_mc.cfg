INIT Init
NEXT Next
VIEW View
CONSTANTS
  Limit = 2
  Roots = {"/p/a", "/p/b"}
  MaxReprio = 2
  MaxTickets = 4
INVARIANTS WithinLimit OnePerProject BurstBounded WorkConserving
PROPERTIES FairToBackground SameClassFifo
CHECK_DEADLOCK FALSE
