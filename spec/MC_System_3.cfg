INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS NoDoubleSpend CommittedOnly Honest OneTruth
CONSTANT McOps <- SomeOps
CONSTANTS Seals = {1, 2}  MaxTxs = 3  Wits = {}
