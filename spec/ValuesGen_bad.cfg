SPECIFICATION GSpec
CONSTANTS MaxOps = 5 Variant = "algo_twice" Emit = FALSE
INVARIANT Lossless
VIEW GView
CHECK_DEADLOCK FALSE
