SPECIFICATION GSpec
CONSTANTS Rounds0 = 2 Variant = "ok"
INVARIANTS Enough0 Reported Covered OnceEach Disjoint
VIEW GView
CHECK_DEADLOCK FALSE
