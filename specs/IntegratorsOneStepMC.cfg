SPECIFICATION Spec
CONSTANTS
  Divisor = 16
  Points = 1
  Steps = 5
INVARIANTS Complete OnGrid Functional OneGo
PROPERTY Monotonic
CHECK_DEADLOCK FALSE
