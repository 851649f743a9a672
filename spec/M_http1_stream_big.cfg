SPECIFICATION Spec
CONSTANTS
 Mode = "stream"
 Depth = 9
 MaxMsgs = 3
VIEW View
INVARIANTS Agrees Consumed InOrder
CHECK_DEADLOCK FALSE
