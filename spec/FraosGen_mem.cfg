SPECIFICATION GSpec
CONSTANTS DC = 4 IC = 6 MaxMaps = 1 Batches <- G1 MaxApp = 3 MaxFault = 0 MaxCrash = 0 MaxHandles = 1 InMem = TRUE Variant = "ok"
VIEW GView
CHECK_DEADLOCK FALSE
