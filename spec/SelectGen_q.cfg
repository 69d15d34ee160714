SPECIFICATION GSpec
CONSTANTS Rounds0 = 3 Variant = "ok" Emit = TRUE Fees <- FeesQ
INVARIANTS Answer Fewest NoneLost
VIEW GView
CHECK_DEADLOCK FALSE
