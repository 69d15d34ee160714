SPECIFICATION Spec
CONSTANTS DC = 4 IC = 6 MaxMaps = 1 Batches <- B1 MaxApp = 4 MaxFault = 1 MaxCrash = 0 MaxHandles = 2 InMem = TRUE Variant = "ok"
INVARIANTS Reads Length NoFault ClosedExactly Survives Durable Chunks
CHECK_DEADLOCK FALSE
