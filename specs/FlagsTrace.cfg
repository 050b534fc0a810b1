SPECIFICATION TraceSpec
INVARIANTS PresentIffSet SetMeansPresent Report
CHECK_DEADLOCK FALSE
