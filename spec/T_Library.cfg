INIT LInit
NEXT TNext
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
