SPECIFICATION Spec
CONSTANTS
  Horizon = 9
  MaxBurns = 3
  MaxLength = 4
  Frame = 3
INVARIANTS CountOk EmptyOk ScratchOk StepsOk
CHECK_DEADLOCK FALSE
