SPECIFICATION Spec
CONSTANTS
    Procs = {p1, p2, p3}
    Calls = 2
    MaxKsn = 3
    Locked = TRUE
    KnownAlgorithm <- SymKnown
    InitialKeyOf <- SymInitialKey
    TransactionKeyOf <- SymTransactionKey
    NextKsnOf <- SymNextKsn
INVARIANTS Linearizable Refines LocksHeld
PROPERTY CallsEnd
CHECK_DEADLOCK FALSE
