SPECIFICATION GSpec
CONSTANTS Variant = "negative" Emit = FALSE MaxFix = 3 MaxOut = 1
INVARIANT Sound
CHECK_DEADLOCK FALSE
