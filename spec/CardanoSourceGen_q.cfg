SPECIFICATION GSpec
CONSTANTS Cap = 2 Variant = "ok" MaxBlocks = 4 MaxPulls = 5 MaxFaults = 1 MaxClears = 1 Pace = "always" Forks = FALSE Emit = FALSE
INVARIANTS Rooted Caught Kept Answered
VIEW GView
CHECK_DEADLOCK FALSE
