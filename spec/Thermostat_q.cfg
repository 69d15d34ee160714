SPECIFICATION GSpec
CONSTANTS Variant = "ok" MaxExtra = 2 Cases <- CasesQ
INVARIANTS Enough0 Ledgers Success
CHECK_DEADLOCK FALSE
