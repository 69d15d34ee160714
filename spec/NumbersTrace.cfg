SPECIFICATION TSpec
CONSTANTS DPL = 4
CHECK_DEADLOCK FALSE
