INIT SimInit
NEXT SimNext
CONSTANTS
  Files = {"a", "b", "c"}
  Texts = {1, 2, 3, 4}
  Batches = 2
  DirtyOpen = TRUE
  Depth = 20
INVARIANTS TypeOK OpenIsAuthoritative ClosedIsDisk NoFalseAlarm EmitH
CHECK_DEADLOCK FALSE
