SPECIFICATION Spec
CONSTANTS
  Call = {a, b, d}
  Client = {1, 2}
  Sizes = {1, 2}
  MaxNow = 1
INVARIANTS TypeOK Bounded QueueIsWaiting NoCallAfterClose
PROPERTIES Once InOrder NotTakenAfterShutdown Served Ends
CHECK_DEADLOCK FALSE
