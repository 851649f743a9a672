SPECIFICATION Spec
CONSTANTS Depth = 5
Weights = {0, 7, 255}
INVARIANTS Conserved HeaviestFirst IdsOnce FlagsAreASet
CHECK_DEADLOCK FALSE
