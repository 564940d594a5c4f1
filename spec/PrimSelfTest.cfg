INIT Init
NEXT Next
INVARIANT Agree
CONSTANT N = 200
CHECK_DEADLOCK FALSE
