SPECIFICATION GSpec
CONSTANTS TreeId = 1 MaxVer = 1 MaxLoad = 0 Holds = TRUE Variant = "ok" Emit = TRUE
INVARIANTS NoAssert TipsOk KidsOk WalkOk DbOk RootsOk
VIEW GView
CHECK_DEADLOCK FALSE
