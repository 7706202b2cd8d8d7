INIT Init
NEXT Step
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Sound Complete Geometry Cuts Conceals Merges
CONSTANT Tagged <- FreeTagged
CONSTANT MsA <- McMsA
CONSTANT MsB <- McMsB
CONSTANT EA <- McEA
CONSTANT EB <- McEB
CONSTANTS DA = 1  DB = 1  Blocks = {2, 3}  AdvDepths = {0, 1, 2}  AdvCofactors = {0, 1, 2}
