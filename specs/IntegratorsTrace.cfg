SPECIFICATION TraceSpec
CONSTANTS Divisor = 16
INVARIANTS Report
CHECK_DEADLOCK FALSE
