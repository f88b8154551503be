INIT Init
NEXT Next
INVARIANTS TypeOK FlagsExclusive UninitClean
CHECK_DEADLOCK FALSE
