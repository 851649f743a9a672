SPECIFICATION TraceSpec
CONSTANT InitSt <- WsInitSt
CONSTANT Step <- WsStep
CHECK_DEADLOCK FALSE
