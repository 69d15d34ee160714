SPECIFICATION Spec
CONSTANTS Threads = {1, 2} MaxOps = 3 Lens = {1, 2} Variant = "ok"
INVARIANTS Ok LenReadable
PROPERTY Grows
CHECK_DEADLOCK FALSE
