SPECIFICATION GSpec
CONSTANTS Depth = 2 MaxBlocks = 6 MaxRestarts = 2 MaxRepeats = 1 Variant = "ok" Emit = FALSE
INVARIANTS Chain Deep Answers Complete CaughtUp NotStuck
VIEW GView
CHECK_DEADLOCK FALSE
