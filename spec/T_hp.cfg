SPECIFICATION TraceSpec
CONSTANT InitSt <- HpInitSt
CONSTANT Step <- HpStep
CHECK_DEADLOCK FALSE
