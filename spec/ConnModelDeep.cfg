SPECIFICATION Spec
CONSTANTS
    ReadTimeout = 6
    ReadHeaderTimeout = 6
    WriteTimeout = 6
    IdleTimeout = 12
    MaxTime = 90
    MaxRequests = 6
    Lag = 1
INVARIANTS AllFine Agrees OnlyWhole
CHECK_DEADLOCK FALSE
