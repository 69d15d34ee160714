SPECIFICATION GSpec
CONSTANTS TreeId = 1 MaxVer = 2 MaxLoad = 0 Holds = FALSE Variant = "ok" Emit = TRUE
INVARIANTS NoAssert TipsOk KidsOk WalkOk DbOk RootsOk
VIEW GView
CHECK_DEADLOCK FALSE
