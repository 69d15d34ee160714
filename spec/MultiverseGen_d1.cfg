SPECIFICATION GSpec
CONSTANTS TreeId = 1 MaxVer = 3 MaxLoad = 2 Holds = TRUE Variant = "ok" Emit = FALSE
INVARIANTS NoAssert TipsOk KidsOk WalkOk DbOk RootsOk
VIEW GView
CHECK_DEADLOCK FALSE
