INIT Init
NEXT Next
INVARIANTS RoundTrip BuiltOK Built Sane
CONSTRAINT Short
CONSTANTS Lengths = {0, 3, 4, 5, 6, 7, 11, 12, 13}
Patterns = {1, 3}
Fillers = {0, 9, 15}
CHECK_DEADLOCK FALSE
