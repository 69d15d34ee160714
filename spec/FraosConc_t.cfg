SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3} MaxOps = 2 Lens = {1, 2} Variant = "ok"
INVARIANTS Ok LenReadable
PROPERTY Grows
CHECK_DEADLOCK FALSE
