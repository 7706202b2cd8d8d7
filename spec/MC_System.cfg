INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS NoDoubleSpend CommittedOnly Honest OneTruth
CONSTANT McOps <- AllOps
CONSTANTS Seals = {1, 2, 3}  MaxTxs = 2  Wits = {}
