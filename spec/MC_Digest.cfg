SPECIFICATION Spec
INVARIANT Decodable
CHECK_DEADLOCK FALSE
