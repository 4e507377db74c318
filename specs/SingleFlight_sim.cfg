INIT SimInit
NEXT SimNext
CONSTANTS
  Keys = {"k1", "k2", "k3", "k4"}
  MaxCalls = 14
  MaxEntries = 2
  MaxWeight = 7
  Weights = {1, 3, 8}
  Abandonable = TRUE
  Depth = 30
INVARIANTS OneProducer Bounded FlightServed Balanced EmitH
CHECK_DEADLOCK FALSE
