SPECIFICATION Spec
CONSTANTS
  Thread = {1, 2}
  Ts = {1, 2, 4}
INVARIANTS Consistent ReadsRight
PROPERTIES StatesAreFinal
CHECK_DEADLOCK FALSE
