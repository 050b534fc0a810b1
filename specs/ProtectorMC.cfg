SPECIFICATION Spec
CONSTANTS
  Thread = {1, 2}
  Ts = {0, 1}
  Ids = {1, 2, 3}
  Max = 2
INVARIANTS DelayedIffProtected OnlyOnce NothingLost
CHECK_DEADLOCK FALSE
