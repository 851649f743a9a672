SPECIFICATION Spec
CONSTANT MaxBlocks = 3
VIEW View
INVARIANTS InSync Bounded
CHECK_DEADLOCK FALSE
