SPECIFICATION TSpec
CONSTANTS DPL = 4
VIEW TView
CHECK_DEADLOCK FALSE
