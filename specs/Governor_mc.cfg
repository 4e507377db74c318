INIT Init
NEXT Next
VIEW View
CONSTANTS
  CpuMax = 2
  TaskMax = 2
  MemMax = 2
  IoMax = 1
  MaxTickets = 4
  MaxReprio = 2
  BigMenu = FALSE
  Threads = FALSE
INVARIANTS WithinLimits PeaksWithin BurstBounded Accounted
PROPERTIES NavReserves FairToBackground
CHECK_DEADLOCK FALSE
