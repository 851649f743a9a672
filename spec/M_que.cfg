SPECIFICATION Spec
CONSTANTS Depth = 4
Weights = {0, 7}
INVARIANTS Conserved HeaviestFirst IdsOnce FlagsAreASet
CHECK_DEADLOCK FALSE
