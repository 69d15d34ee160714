INIT Init
NEXT Next
CONSTANTS DPL = 1 N = 30
INVARIANT Ok
CHECK_DEADLOCK FALSE
