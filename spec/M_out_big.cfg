SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS NothingLost WordsBack
CHECK_DEADLOCK FALSE
