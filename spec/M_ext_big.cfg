SPECIFICATION Spec
CONSTANTS MaxOps = 5
UseKinds = {1, 3, 11}
UseValues = {1, 2}
INVARIANTS Frame Returned Effect NoneLost
VIEW View
CHECK_DEADLOCK FALSE
