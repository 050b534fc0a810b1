SPECIFICATION Spec
CONSTANT MaxLength = 3
INVARIANTS InverseUndoes Exterior Trivectors Closed
CHECK_DEADLOCK FALSE
