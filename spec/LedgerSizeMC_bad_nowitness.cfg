SPECIFICATION GSpec
CONSTANTS Variant = "nowitness" MaxIn = 5 MaxOut = 3
INVARIANTS Enough
VIEW GView
CHECK_DEADLOCK FALSE
