SPECIFICATION GSpec
CONSTANTS TreeId = 4 MaxVer = 2 MaxLoad = 1 Holds = FALSE Variant = "stays_in_db" Emit = FALSE
INVARIANTS NoAssert TipsOk KidsOk WalkOk DbOk RootsOk
VIEW GView
CHECK_DEADLOCK FALSE
