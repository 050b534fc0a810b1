CONSTANTS
  Times = {0, 1, 2, 3}
  Clients = {1, 2}
  Threshold = 1
  Serialized = TRUE
  MaxRequests = 3
SPECIFICATION RSpec
INVARIANTS NotTooFar Served
PROPERTIES Monotonic Progress
CHECK_DEADLOCK FALSE
