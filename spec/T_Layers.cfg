INIT Init0
NEXT TNext
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
