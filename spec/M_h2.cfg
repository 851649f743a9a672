SPECIFICATION Spec
CONSTANTS
 MaxFrames = 2
 MaxMoves = 2
 Moves = {11, 1000}
VIEW View
INVARIANTS InOrder ClosedOk NoFalseAlarm Complete AllRead AttackSeen
CHECK_DEADLOCK FALSE
