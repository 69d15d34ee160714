SPECIFICATION TSpec
CONSTANTS Cap = 1000 Variant = "ok"
VIEW TView
CHECK_DEADLOCK FALSE
