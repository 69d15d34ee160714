SPECIFICATION GSpec
CONSTANTS Depth = 2 MaxBlocks = 5 Variant = "reverse" Emit = FALSE FromStart = FALSE
INVARIANTS Leads Arrives NotStuck
VIEW GView
CHECK_DEADLOCK FALSE
