SPECIFICATION GSpec
CONSTANTS Depth = 2 MaxBlocks = 5 Variant = "tips" Emit = FALSE FromStart = FALSE
INVARIANTS Leads Arrives NotStuck
VIEW GView
CHECK_DEADLOCK FALSE
