SPECIFICATION GSpec
CONSTANTS Rounds0 = 1 Variant = "noguard"
INVARIANTS Reported Covered OnceEach Disjoint
VIEW GView
CHECK_DEADLOCK FALSE
