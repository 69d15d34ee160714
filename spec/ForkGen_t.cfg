SPECIFICATION GSpec
CONSTANTS Depth = 2 MaxBlocks = 7 Variant = "ok" Emit = FALSE FromStart = FALSE
INVARIANTS Leads Arrives NotStuck
VIEW GView
CHECK_DEADLOCK FALSE
