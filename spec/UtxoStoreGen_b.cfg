SPECIFICATION GSpec
CONSTANTS Tab = 2 Snaps = {"s1", "s2"} Muts = {"m1", "m2"} MaxOps = 9 Variant = "ok" Emit = TRUE
INVARIANT Consistent
PROPERTY Immutable
VIEW GView
CHECK_DEADLOCK FALSE
