SPECIFICATION Spec
INVARIANTS Final PrefixOk
PROPERTIES Monotone Ends
CHECK_DEADLOCK FALSE
