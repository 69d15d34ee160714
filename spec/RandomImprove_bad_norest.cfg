SPECIFICATION GSpec
CONSTANTS Rounds0 = 1 Variant = "norest"
INVARIANTS Enough0
VIEW GView
CHECK_DEADLOCK FALSE
