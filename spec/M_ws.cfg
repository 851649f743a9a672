SPECIFICATION Spec
CONSTANT MaxFrames = 2
CONSTANT MaxMoves = 4
VIEW View
INVARIANTS InOrder NeverBad Complete
CHECK_DEADLOCK FALSE
