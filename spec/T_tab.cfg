SPECIFICATION TraceSpec
CONSTANT InitSt <- TabInitSt
CONSTANT Step <- TabStep
CHECK_DEADLOCK FALSE
