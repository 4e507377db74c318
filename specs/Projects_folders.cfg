INIT SimInit
NEXT SimNext
CONSTANTS
  Gems = {"w", "s", "t", "y"}
  Policies <- SomePolicies
  Files = {"a", "b", "c", "d", "e", "f", "g"}
  Texts = {1, 2, 3, 4}
  Starts = 10
  FolderSets = {{"w"}, {"w", "v"}, {"v"}, {"s", "v"}}
  FolderOps = TRUE
  Depth = 8
INVARIANTS OnlyOwned OneOwner Gone EmitH
CHECK_DEADLOCK FALSE
