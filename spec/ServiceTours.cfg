CONSTANTS
    KnownAlgorithm <- SymKnown
    InitialKeyOf <- SymInitialKey
    TransactionKeyOf <- SymTransactionKey
    NextKsnOf <- SymNextKsn
    Bdks = {0, 1, 2}
    MaxKsn = 2
    Used <- Three
    Bad = TRUE
    Depth = 0
SPECIFICATION StepSpec
VIEW OnlyRegistry
ACTION_CONSTRAINT Step
CHECK_DEADLOCK FALSE
