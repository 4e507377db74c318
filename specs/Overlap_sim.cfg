INIT OInit
NEXT ONext
CONSTANTS
  Files = {"a", "b", "c"}
  Texts = {1, 2, 3, 4}
  Batches = 1
  DirtyOpen = TRUE
  MaxFlight = 4
  Debounce = FALSE
  Depth = 26
INVARIANTS HeldBack Lags Quiet EmitH
CHECK_DEADLOCK FALSE
