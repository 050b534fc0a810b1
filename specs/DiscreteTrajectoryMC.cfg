SPECIFICATION Spec
CONSTANTS
  MaxTime = 4
  MaxSegments = 3
INVARIANTS Refinement MapInvariant ConsistencyInvariant LookupInvariant ForgetInvariant SplitInvariant
CHECK_DEADLOCK FALSE
