SPECIFICATION Spec
CONSTANTS MaxOps = 3
UseKinds = {1, 11}
UseValues = {1, 2}
INVARIANTS Frame Returned Effect NoneLost
VIEW View
CHECK_DEADLOCK FALSE
