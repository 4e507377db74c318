CONSTANTS
  Profile = "mix"
INIT Init
NEXT Next
INVARIANTS Complete NoDup Emit
CHECK_DEADLOCK FALSE
