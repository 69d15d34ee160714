SPECIFICATION GSpec
CONSTANTS Tab = 1 Snaps = {"s0", "s1"} Muts = {"m1"} MaxOps = 9 Variant = "alias" Emit = FALSE
INVARIANT Consistent
PROPERTY Immutable
VIEW GView
CHECK_DEADLOCK FALSE
