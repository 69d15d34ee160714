SPECIFICATION Spec
CONSTANT Design = "name first"
INVARIANT Agrees
CHECK_DEADLOCK FALSE
