SPECIFICATION TraceSpec
CONSTANT InitSt <- AnyInitSt
CONSTANT Step <- AnyStep
CHECK_DEADLOCK FALSE
