SPECIFICATION TraceSpec
CONSTANT InitSt <- HInitSt
CONSTANT Step <- HStep
CHECK_DEADLOCK FALSE
