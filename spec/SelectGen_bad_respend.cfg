SPECIFICATION GSpec
CONSTANTS Rounds0 = 3 Variant = "respend" Emit = FALSE Fees <- FeesQ
INVARIANTS Answer Fewest NoneLost
VIEW GView
CHECK_DEADLOCK FALSE
