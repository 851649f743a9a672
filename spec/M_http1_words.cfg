SPECIFICATION Spec
CONSTANTS
 Mode = "words"
 Depth = 4
 MaxMsgs = 0
VIEW View
INVARIANTS Agrees Consumed InOrder
CHECK_DEADLOCK FALSE
