SPECIFICATION GSpec
CONSTANTS Rounds0 = 4 Variant = "ok" Emit = TRUE Fees <- FeesT
INVARIANTS Answer Fewest NoneLost
VIEW GView
CHECK_DEADLOCK FALSE
