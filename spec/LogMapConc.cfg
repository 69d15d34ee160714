SPECIFICATION Spec
CONSTANTS Threads = {1, 2} Keys = {"a", "b"} MaxOps = 3 Variant = "ok"
INVARIANTS Ok Points
CHECK_DEADLOCK FALSE
