SPECIFICATION Spec
CONSTANTS Size = 2 MaxPoints = 4 MaxLeaf = 1
INVARIANTS NotStuck Correct
CHECK_DEADLOCK FALSE
