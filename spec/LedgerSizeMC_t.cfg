SPECIFICATION GSpec
CONSTANTS Variant = "ok" MaxIn = 16 MaxOut = 6
INVARIANTS Enough
VIEW GView
CHECK_DEADLOCK FALSE
