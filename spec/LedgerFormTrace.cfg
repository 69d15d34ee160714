CONSTANT Variant = "ok"
SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
