INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS NoDoubleSpend CommittedOnly Held HeldGood
CONSTANT McOps <- SomeOps
CONSTANTS Seals = {1, 2}  MaxTxs = 1  Wits = {0, 1}
