SPECIFICATION GSpec
CONSTANTS Variant = "splitloses" MaxExtra = 2 Cases <- CasesQ
INVARIANTS Ledgers Success
CHECK_DEADLOCK FALSE
