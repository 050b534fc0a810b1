SPECIFICATION TraceSpec
INVARIANTS Consistent Report
PROPERTIES NeverRemoved OneByOne
CHECK_DEADLOCK FALSE
