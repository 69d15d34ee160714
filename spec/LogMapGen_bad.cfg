SPECIFICATION GSpec
CONSTANTS Keys = {"a", "b", "c"} MaxLen = 4 MaxOpen = 3 Variant = "keep_first"
INVARIANT IndexOk
VIEW GView
CHECK_DEADLOCK FALSE
