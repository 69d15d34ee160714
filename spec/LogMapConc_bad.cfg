SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} Keys = {"a", "b"} MaxOps = 2 Variant = "blind"
INVARIANTS Ok Points
CHECK_DEADLOCK FALSE
