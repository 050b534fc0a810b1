CONSTANTS
  Times = {0, 1, 2}
  Clients = {1, 2}
  Threshold = 1
  Serialized = TRUE
  MaxRequests = 2
SPECIFICATION RSpec
INVARIANTS NotTooFar Served
PROPERTIES Monotonic Progress
CHECK_DEADLOCK FALSE
