SPECIFICATION Spec
CONSTANTS DC = 4 IC = 6 MaxMaps = 1 Batches <- B2 MaxApp = 3 MaxFault = 1 MaxCrash = 2 MaxHandles = 1 InMem = FALSE Variant = "no_dflush"
INVARIANTS Reads Length NoFault ClosedExactly Survives Durable Chunks
CHECK_DEADLOCK FALSE
