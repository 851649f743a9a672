SPECIFICATION Spec
CONSTANT MaxBlocks = 4
VIEW View
INVARIANTS InSync Bounded
CHECK_DEADLOCK FALSE
