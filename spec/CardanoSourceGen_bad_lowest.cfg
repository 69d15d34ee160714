SPECIFICATION GSpec
CONSTANTS Cap = 2 Variant = "lowest" MaxBlocks = 3 MaxPulls = 5 MaxFaults = 1 MaxClears = 1 Pace = "once" Forks = FALSE Emit = FALSE
INVARIANTS Rooted Caught Kept Answered
VIEW GView
CHECK_DEADLOCK FALSE
