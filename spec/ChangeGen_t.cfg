SPECIFICATION GSpec
CONSTANTS Variant = "ok" Emit = TRUE MaxFix = 3 MaxOut = 2
INVARIANT Sound
CHECK_DEADLOCK FALSE
