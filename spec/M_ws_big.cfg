SPECIFICATION Spec
CONSTANT MaxFrames = 3
CONSTANT MaxMoves = 5
VIEW View
INVARIANTS InOrder NeverBad Complete
CHECK_DEADLOCK FALSE
