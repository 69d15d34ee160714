SPECIFICATION TSpec
VIEW TView
CONSTANTS DPL = 4
CHECK_DEADLOCK FALSE
