SPECIFICATION Spec
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
VIEW Line
