INIT Init
NEXT Next
CONSTANTS DPL = 2 N = 130
INVARIANT Ok
CHECK_DEADLOCK FALSE
