SPECIFICATION Spec
CONSTANTS
  Names = {"a", "b", "c"}
  Vals = {"", "x"}
  Depth = 5
INVARIANTS PresentIffSet SetMeansPresent
PROPERTIES Independent
CHECK_DEADLOCK FALSE
