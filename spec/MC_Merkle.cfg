CONSTANTS MaxLeaves = 10
CONSTANT Tagged <- FreeTagged
SPECIFICATION Spec
INVARIANTS Balanced Separated
CHECK_DEADLOCK FALSE
