SPECIFICATION TraceSpec
CONSTANT InitSt <- MsgInitSt
CONSTANT Step <- MsgStep
CHECK_DEADLOCK FALSE
