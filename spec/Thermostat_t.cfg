SPECIFICATION GSpec
CONSTANTS Variant = "ok" MaxExtra = 4 Cases <- CasesT
INVARIANTS Enough0 Ledgers Success
CHECK_DEADLOCK FALSE
