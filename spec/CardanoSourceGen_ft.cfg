SPECIFICATION GSpec
CONSTANTS Cap = 2 Variant = "ok" MaxBlocks = 3 MaxPulls = 6 MaxFaults = 2 MaxClears = 1 Pace = "once" Forks = TRUE Emit = FALSE
INVARIANTS Rooted Caught Kept Answered
VIEW GView
CHECK_DEADLOCK FALSE
