SPECIFICATION MCSpec
CONSTANTS N = 3 Frames = 3 MaxEdges = 2
INVARIANTS Partition Complete
CHECK_DEADLOCK FALSE
