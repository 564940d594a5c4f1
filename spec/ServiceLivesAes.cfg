CONSTANTS
    KnownAlgorithm <- SymKnown
    InitialKeyOf <- SymInitialKey
    TransactionKeyOf <- SymTransactionKey
    NextKsnOf <- SymNextKsn
    Bdks = {0, 1}
    MaxKsn = 2
    Used <- Other
    Bad = FALSE
    Depth = 5
SPECIFICATION PathSpec
VIEW OnlyPath
ACTION_CONSTRAINT Whole
CHECK_DEADLOCK FALSE
