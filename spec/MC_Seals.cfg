SPECIFICATION Spec
INVARIANTS Exactly NoWitness
CHECK_DEADLOCK FALSE
