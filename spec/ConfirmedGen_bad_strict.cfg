SPECIFICATION GSpec
CONSTANTS Depth = 2 MaxBlocks = 5 MaxRestarts = 1 MaxRepeats = 1 Variant = "strict" Emit = FALSE
INVARIANTS Chain Deep Answers Complete CaughtUp NotStuck
VIEW GView
CHECK_DEADLOCK FALSE
