SPECIFICATION GSpec
CONSTANTS Variant = "lastpart" MaxParts = 3
INVARIANTS Conserved Normal Bound
CHECK_DEADLOCK FALSE
