SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS BlocksAreComponents IsPartition
PROPERTIES OnlyGrows
CHECK_DEADLOCK FALSE
