SPECIFICATION TraceSpec
CONSTANTS
  Thread = {0, 1, 2, 3}
INVARIANTS DelayedIffProtected OnlyOnce NothingLost Report
CHECK_DEADLOCK FALSE
