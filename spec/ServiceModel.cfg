CONSTANTS
    KnownAlgorithm <- SymKnown
    InitialKeyOf <- SymInitialKey
    TransactionKeyOf <- SymTransactionKey
    NextKsnOf <- SymNextKsn
    Bdks = {0, 1, 2}
    MaxKsn = 4
SPECIFICATION Spec
VIEW OnlyState
INVARIANT KeyMatches
INVARIANT NoRepeats
INVARIANT Current
PROPERTY Frame
PROPERTY Monotone
CHECK_DEADLOCK FALSE
