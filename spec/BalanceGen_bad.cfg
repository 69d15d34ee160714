SPECIFICATION GSpec
CONSTANTS MaxOps = 5 Bound = 5 Variant = "debt_zero" Emit = FALSE
INVARIANT Exact
VIEW GView
CHECK_DEADLOCK FALSE
