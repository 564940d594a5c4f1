INIT Init
NEXT Next
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
