SPECIFICATION Spec
CONSTANTS
  MaxTime = 5
  MaxSegments = 4
INVARIANTS Refinement MapInvariant ConsistencyInvariant LookupInvariant ForgetInvariant SplitInvariant
CHECK_DEADLOCK FALSE
