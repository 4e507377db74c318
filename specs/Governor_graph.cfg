INIT Init
NEXT Next
VIEW View
CONSTANTS
  CpuMax = 2
  TaskMax = 2
  MemMax = 2
  IoMax = 1
  MaxTickets = 3
  MaxReprio = 1
  BigMenu = FALSE
  Threads = FALSE
INVARIANTS WithinLimits PeaksWithin BurstBounded Accounted
PROPERTIES NavReserves FairToBackground
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
