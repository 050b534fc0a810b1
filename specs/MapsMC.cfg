SPECIFICATION Spec
CONSTANT MaxLength = 2
INVARIANTS InverseUndoes Exterior Trivectors Closed
CHECK_DEADLOCK FALSE
