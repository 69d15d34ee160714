SPECIFICATION GSpec
CONSTANT Variant = "ok"
INVARIANT Agree
CHECK_DEADLOCK FALSE
