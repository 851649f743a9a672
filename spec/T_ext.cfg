SPECIFICATION TraceSpec
CONSTANT InitSt <- ExtInitSt
CONSTANT Step <- ExtStep
CHECK_DEADLOCK FALSE
