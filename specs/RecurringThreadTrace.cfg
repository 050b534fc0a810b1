SPECIFICATION TraceSpec
CONSTANTS
  Client = {0, 1, 2}
  Input = {}
  Period = 10
INVARIANTS NoThreadNoWork DeadMeansIdle Report
PROPERTIES InputsKept OutputsKept NoOutputFromFailure
CHECK_DEADLOCK FALSE
