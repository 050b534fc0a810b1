SPECIFICATION Spec
CONSTANTS
  Thread = {1, 2}
  Default = 99
  Xs = {1, 2, 3}
  Max = 2
INVARIANTS Positive FirstIsSmallest
CHECK_DEADLOCK FALSE
