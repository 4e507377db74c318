INIT SimInit
NEXT SimNext
CONSTANTS
  CpuMax = 3
  TaskMax = 3
  MemMax = 3
  IoMax = 2
  MaxTickets = 12
  MaxReprio = 5
  BigMenu = FALSE
  Threads = FALSE
  Depth = 36
INVARIANTS WithinLimits PeaksWithin BurstBounded Accounted EmitH
CHECK_DEADLOCK FALSE
