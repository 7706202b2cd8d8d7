INIT Init
NEXT Next
INVARIANTS Least Placed
CHECK_DEADLOCK FALSE
