SPECIFICATION GSpec
CONSTANTS Rounds0 = 1 Variant = "sharedkey"
INVARIANTS Reported Covered OnceEach Disjoint
VIEW GView
CHECK_DEADLOCK FALSE
