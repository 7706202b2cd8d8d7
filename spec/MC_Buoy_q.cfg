CONSTANTS MaxDepth = 4 MaxLen = 6 CutDepth = 4
SPECIFICATION Spec
INVARIANTS Refines Settled WeightKept
CHECK_DEADLOCK FALSE
