INIT Init
NEXT Next
VIEW View
CONSTANTS
  Keys = {"k1", "k2"}
  MaxCalls = 4
  MaxEntries = 1
  MaxWeight = 5
  Weights = {2, 6}
  Abandonable = TRUE
INVARIANTS OneProducer Bounded FlightServed Balanced
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
