SPECIFICATION MCSpec
CONSTANTS N = 4 Frames = 2 MaxEdges = 3
INVARIANTS Partition Complete
CHECK_DEADLOCK FALSE
