CONSTANTS MaxDepth = 4 MaxLen = 7 CutDepth = 4
SPECIFICATION Spec
INVARIANTS Refines Settled WeightKept
CHECK_DEADLOCK FALSE
