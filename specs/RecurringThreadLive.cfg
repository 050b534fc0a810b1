SPECIFICATION Spec
CONSTANTS
  Client = {1}
  Input = {1, 2}
  Period = 1
  MaxNow = 2
INVARIANTS NoThreadNoWork DeadMeansIdle
PROPERTIES InputsKept OutputsKept NoOutputFromFailure ControlEnds DestructionEnds
CHECK_DEADLOCK FALSE
