SPECIFICATION Spec
CONSTANTS
 MaxFrames = 2
 MaxMoves = 3
 Moves = {5, 14, 1000}
VIEW View
INVARIANTS InOrder ClosedOk NoFalseAlarm Complete AllRead AttackSeen
CHECK_DEADLOCK FALSE
