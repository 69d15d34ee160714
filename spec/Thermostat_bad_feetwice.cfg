SPECIFICATION GSpec
CONSTANTS Variant = "feetwice" MaxExtra = 2 Cases <- CasesQ
INVARIANTS Enough0
CHECK_DEADLOCK FALSE
