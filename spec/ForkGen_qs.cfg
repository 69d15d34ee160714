SPECIFICATION GSpec
CONSTANTS Depth = 2 MaxBlocks = 5 Variant = "ok" Emit = FALSE FromStart = TRUE
INVARIANTS Leads Arrives NotStuck
VIEW GView
CHECK_DEADLOCK FALSE
