CONSTANT Tagged <- FreeTagged
SPECIFICATION Spec
INVARIANTS Injective LayoutOfTypes
CHECK_DEADLOCK FALSE
