SPECIFICATION GSpec
CONSTANTS TreeId = 4 MaxVer = 2 MaxLoad = 0 Holds = TRUE Variant = "weak" Emit = FALSE
INVARIANTS NoAssert TipsOk KidsOk WalkOk DbOk RootsOk
VIEW GView
CHECK_DEADLOCK FALSE
