SPECIFICATION GSpec
CONSTANTS Variant = "ok" Emit = TRUE MaxFix = 3 MaxOut = 1
INVARIANT Sound
CHECK_DEADLOCK FALSE
