INIT TraceInit
NEXT Next
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
