SPECIFICATION Spec
INVARIANTS EmbedOk ConvolveOk CommitOk
CHECK_DEADLOCK FALSE
