SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS NothingLost WordsBack
CHECK_DEADLOCK FALSE
