SPECIFICATION TraceSpec
CONSTANTS
  Value = {}
INVARIANTS OneAtATime FinishedMeansAnswered StopMeansEnded Report
CHECK_DEADLOCK FALSE
