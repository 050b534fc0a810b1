SPECIFICATION TraceSpec
CONSTANTS
  Call = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
  Client = {0, 1, 2, 3}
  Sizes = {1, 2, 3}
INVARIANTS Bounded QueueIsWaiting Report
PROPERTIES Once InOrder NotTakenAfterShutdown
CHECK_DEADLOCK FALSE
