SPECIFICATION GSpec
CONSTANTS Rounds0 = 1 Variant = "nofee"
INVARIANTS Reported Covered OnceEach Disjoint
VIEW GView
CHECK_DEADLOCK FALSE
