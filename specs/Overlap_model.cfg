INIT OInit
NEXT ONext
VIEW OView
CONSTANTS
  Files = {"a", "b"}
  Texts = {1, 2}
  Batches = 2
  DirtyOpen = TRUE
  MaxFlight = 3
  Debounce = FALSE
  Depth = 0
INVARIANTS HeldBack Lags Quiet
CHECK_DEADLOCK FALSE
