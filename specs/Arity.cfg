CONSTANTS
  MaxPos = 4
  MaxReq = 1
  MaxOpt = 1
  MaxPost = 1
  Kws = {"k", "l"}
INIT Init
NEXT Next
INVARIANTS Reasons SplatHelps RestTakesAll Emit
CHECK_DEADLOCK FALSE
