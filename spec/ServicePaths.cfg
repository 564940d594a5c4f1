CONSTANTS
    KnownAlgorithm <- SymKnown
    InitialKeyOf <- SymInitialKey
    TransactionKeyOf <- SymTransactionKey
    NextKsnOf <- SymNextKsn
    Bdks = {0, 1}
    MaxKsn = 2
    Used <- Two
    Bad = TRUE
    Depth = 3
SPECIFICATION PathSpec
VIEW OnlyPath
ACTION_CONSTRAINT Whole
CHECK_DEADLOCK FALSE
