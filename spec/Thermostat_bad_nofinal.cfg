SPECIFICATION GSpec
CONSTANTS Variant = "nofinal" MaxExtra = 2 Cases <- CasesQ
INVARIANTS Ledgers Success
CHECK_DEADLOCK FALSE
