SPECIFICATION GSpec
CONSTANTS Variant = "ok" MaxParts = 4
INVARIANTS Conserved Normal Bound
CHECK_DEADLOCK FALSE
