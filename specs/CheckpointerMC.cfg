SPECIFICATION Spec
CONSTANTS
  Ts = {0, 2, 3, 4, 5, 8}
  Depth = 6
INVARIANTS Consistent Spaced
PROPERTIES NeverRemoved OneByOne
CHECK_DEADLOCK FALSE
