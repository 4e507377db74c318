SPECIFICATION LiveSpec
CONSTANTS
  Keys = {"k1", "k2"}
  MaxCalls = 3
  MaxEntries = 1
  MaxWeight = 5
  Weights = {2, 6}
  Abandonable = TRUE
INVARIANTS OneProducer Bounded FlightServed Balanced
CHECK_DEADLOCK FALSE
PROPERTIES EveryWaiterServed
