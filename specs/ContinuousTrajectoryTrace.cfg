CONSTANT Divisions = 8
SPECIFICATION TraceSpec
INVARIANTS TraceInv Report
CHECK_DEADLOCK FALSE
