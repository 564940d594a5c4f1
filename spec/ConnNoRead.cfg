SPECIFICATION Spec
CONSTANTS
    ReadTimeout = 0
    ReadHeaderTimeout = 6
    WriteTimeout = 6
    IdleTimeout = 12
    MaxTime = 45
    MaxRequests = 3
    Lag = 1
INVARIANTS AllFine Agrees OnlyWhole
CHECK_DEADLOCK FALSE
