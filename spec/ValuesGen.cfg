SPECIFICATION GSpec
CONSTANTS MaxOps = 5 Variant = "ok" Emit = TRUE
INVARIANTS Lossless Back
VIEW GView
CHECK_DEADLOCK FALSE
