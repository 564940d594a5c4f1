SPECIFICATION Spec
CONSTANTS
    ReadTimeout = 0
    ReadHeaderTimeout = 0
    WriteTimeout = 0
    IdleTimeout = 0
    MaxTime = 45
    MaxRequests = 3
    Lag = 1
INVARIANTS AllFine Agrees OnlyWhole
CHECK_DEADLOCK FALSE
