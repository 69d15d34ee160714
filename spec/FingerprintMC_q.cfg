SPECIFICATION Spec
CONSTANT Design = "policy first"
INVARIANT Agrees
CHECK_DEADLOCK FALSE
