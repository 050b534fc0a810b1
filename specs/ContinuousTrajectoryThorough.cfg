CONSTANTS Divisions = 3 MaxTime = 12 Motions = {1}
SPECIFICATION Spec
INVARIANTS WellFormed Agree Covers NoGap
PROPERTIES Stable
CHECK_DEADLOCK FALSE
