SPECIFICATION GSpec
CONSTANTS TreeId = 2 MaxVer = 2 MaxLoad = 1 Holds = FALSE Variant = "ok" Emit = TRUE
INVARIANTS NoAssert TipsOk KidsOk WalkOk DbOk RootsOk
VIEW GView
CHECK_DEADLOCK FALSE
