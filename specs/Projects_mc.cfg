INIT Init
NEXT Next
CONSTANTS
  Gems = {"w", "s"}
  Policies <- SomePolicies
  Files = {"a", "b", "c", "f"}
  Texts = {1, 4}
  Starts = 4
  FolderSets = {{}, {"w"}, {"w", "s"}, {"s"}}
  FolderOps = TRUE
INVARIANTS OnlyOwned OneOwner Gone
PROPERTIES Isolated
CHECK_DEADLOCK FALSE
