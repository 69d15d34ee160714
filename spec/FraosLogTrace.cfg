SPECIFICATION TSpec
INVARIANT TypeOK
VIEW TView
CHECK_DEADLOCK FALSE
