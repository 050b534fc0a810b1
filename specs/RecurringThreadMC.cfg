SPECIFICATION Spec
CONSTANTS
  Client = {1, 2}
  Input = {1, 2}
  Period = 1
  MaxNow = 1
INVARIANTS NoThreadNoWork DeadMeansIdle
PROPERTIES InputsKept OutputsKept NoOutputFromFailure
CHECK_DEADLOCK FALSE
