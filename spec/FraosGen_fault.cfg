SPECIFICATION GSpec
CONSTANTS DC = 4 IC = 6 MaxMaps = 1 Batches <- G2 MaxApp = 4 MaxFault = 2 MaxCrash = 0 MaxHandles = 1 InMem = FALSE Variant = "ok"
VIEW GView
CHECK_DEADLOCK FALSE
