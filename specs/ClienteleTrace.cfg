SPECIFICATION TraceSpec
CONSTANTS
  Thread = {0, 1, 2, 3}
  Default = 99
INVARIANTS Positive FirstIsSmallest Report
CHECK_DEADLOCK FALSE
