SPECIFICATION GSpec
CONSTANTS MaxOps = 8 Bound = 5 Variant = "ok" Emit = TRUE
INVARIANT Exact
VIEW GView
CHECK_DEADLOCK FALSE
