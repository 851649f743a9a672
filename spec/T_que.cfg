SPECIFICATION TraceSpec
CONSTANT InitSt <- QueInitSt
CONSTANT Step <- QueStep
CHECK_DEADLOCK FALSE
