SPECIFICATION Spec
CONSTANTS
    Depth = 7
    MaxRequests = 3
    MaxSignals = 2
VIEW OnlyPath
INVARIANT Bounded
CHECK_DEADLOCK FALSE
