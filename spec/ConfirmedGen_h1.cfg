SPECIFICATION GSpec
CONSTANTS Depth = 1 MaxBlocks = 4 MaxRestarts = 1 MaxRepeats = 1 Variant = "ok" Emit = TRUE
INVARIANTS Chain Deep Answers Complete CaughtUp NotStuck
VIEW GView
CHECK_DEADLOCK FALSE
