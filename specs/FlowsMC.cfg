SPECIFICATION Spec
CONSTANTS
  T = 12
  Unit = 32
  Walls = {5, 100}
INVARIANTS Contract OkIffThere NeverBeyond
PROPERTIES Forward Terminates
CHECK_DEADLOCK FALSE
