SPECIFICATION GSpec
CONSTANTS Depth = 2 MaxBlocks = 5 Variant = "blind" Emit = FALSE FromStart = FALSE
INVARIANTS Leads Arrives NotStuck
VIEW GView
CHECK_DEADLOCK FALSE
