INIT Init
NEXT Next
VIEW View
CONSTANTS
  Files = {"a", "b"}
  Texts = {1, 2}
  Batches = 1
  DirtyOpen = TRUE
INVARIANTS TypeOK OpenIsAuthoritative ClosedIsDisk NoFalseAlarm
PROPERTY OnlyItself
ACTION_CONSTRAINT EmitT
CHECK_DEADLOCK FALSE
