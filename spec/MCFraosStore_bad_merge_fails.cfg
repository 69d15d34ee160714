SPECIFICATION Spec
CONSTANTS DC = 4 IC = 6 MaxMaps = 1 Batches <- B2 MaxApp = 5 MaxFault = 1 MaxCrash = 0 MaxHandles = 1 InMem = FALSE Variant = "merge_fails"
INVARIANTS Reads Length NoFault ClosedExactly Survives Durable Chunks
CHECK_DEADLOCK FALSE
