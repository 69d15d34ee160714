SPECIFICATION GSpec
CONSTANTS Cap = 2 Variant = "ok" MaxBlocks = 3 MaxPulls = 6 MaxFaults = 1 MaxClears = 1 Pace = "once" Forks = TRUE Emit = TRUE
INVARIANTS Rooted Caught Answered
VIEW GView
CHECK_DEADLOCK FALSE
