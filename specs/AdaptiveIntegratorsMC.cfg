SPECIFICATION Spec
CONSTANTS
  T = 4
  H = 3
  Max = 3
  Solves = 2
INVARIANTS Contract Guarantees
PROPERTY Monotonic
CHECK_DEADLOCK FALSE
