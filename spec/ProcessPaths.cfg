SPECIFICATION Spec
CONSTANTS
    Depth = 6
    MaxRequests = 2
    MaxSignals = 2
VIEW OnlyPath
INVARIANT Bounded
CHECK_DEADLOCK FALSE
