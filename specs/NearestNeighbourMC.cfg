SPECIFICATION Spec
CONSTANTS Size = 2 MaxPoints = 3 MaxLeaf = 1
INVARIANTS NotStuck Correct
CHECK_DEADLOCK FALSE
