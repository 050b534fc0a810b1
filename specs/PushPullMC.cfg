SPECIFICATION Spec
CONSTANTS
  Value = {1, 2}
  MaxCalls = 4
INVARIANTS OneAtATime FinishedMeansAnswered StopMeansEnded NoDeadlock
PROPERTIES Terminates ClientStops
