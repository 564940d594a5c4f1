SPECIFICATION Spec
CONSTANTS
    Requests = {"r1", "r2"}
    MaxSignals = 2
INVARIANTS NoneLost Serves EndsForAReason StaysUp
PROPERTIES TakesNoNewOnes Ends EndsAlone
CHECK_DEADLOCK FALSE
