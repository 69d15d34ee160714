INIT Init
NEXT Next
CONSTANTS DPL = 1 N = 130
INVARIANT Ok
CHECK_DEADLOCK FALSE
