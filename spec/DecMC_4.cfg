INIT Init
NEXT Next
CONSTANTS DPL = 4 N = 160
INVARIANT Ok
CHECK_DEADLOCK FALSE
