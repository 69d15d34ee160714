SPECIFICATION GSpec
CONSTANTS DPL = 4 MaxN = 4 Variant = "seconds"
INVARIANTS Valid Closed Unique
CHECK_DEADLOCK FALSE
