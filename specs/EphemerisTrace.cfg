SPECIFICATION TraceSpec
INVARIANTS TraceInv Report
CHECK_DEADLOCK FALSE
