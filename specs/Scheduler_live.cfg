SPECIFICATION LiveSpec
CONSTANTS
  Limit = 1
  Roots = {"/p/a", "/p/b"}
  MaxReprio = 1
  MaxTickets = 3
PROPERTIES EventuallyServed
CHECK_DEADLOCK FALSE
