SPECIFICATION GSpec
CONSTANTS TreeId = 1 MaxVer = 2 MaxLoad = 0 Holds = FALSE Variant = "tip_stays" Emit = FALSE
INVARIANTS NoAssert TipsOk KidsOk WalkOk DbOk RootsOk
VIEW GView
CHECK_DEADLOCK FALSE
