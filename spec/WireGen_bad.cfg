SPECIFICATION GSpec
CONSTANT Variant = "defaults"
INVARIANT Agree
CHECK_DEADLOCK FALSE
