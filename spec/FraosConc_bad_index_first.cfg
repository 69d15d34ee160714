SPECIFICATION Spec
CONSTANTS Threads = {1, 2} MaxOps = 2 Lens = {1, 2} Variant = "index_first"
INVARIANTS Ok LenReadable
PROPERTY Grows
CHECK_DEADLOCK FALSE
