SPECIFICATION GSpec
CONSTANTS Variant = "ok" MaxParts = 3
INVARIANTS Conserved Normal Bound
CHECK_DEADLOCK FALSE
