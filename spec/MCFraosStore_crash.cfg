SPECIFICATION Spec
CONSTANTS DC = 4 IC = 6 MaxMaps = 2 Batches <- B2 MaxApp = 4 MaxFault = 0 MaxCrash = 2 MaxHandles = 1 InMem = FALSE Variant = "ok"
INVARIANTS Reads Length NoFault ClosedExactly Survives Durable Chunks
CHECK_DEADLOCK FALSE
