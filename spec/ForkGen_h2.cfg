SPECIFICATION GSpec
CONSTANTS Depth = 2 MaxBlocks = 4 Variant = "ok" Emit = TRUE FromStart = FALSE
INVARIANTS Leads Arrives NotStuck
VIEW GView
CHECK_DEADLOCK FALSE
