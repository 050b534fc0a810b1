SPECIFICATION TraceSpec
CONSTANTS
  Thread = {0, 1, 2}
INVARIANTS Consistent Report
PROPERTIES StatesAreFinal
CHECK_DEADLOCK FALSE
