SPECIFICATION TraceSpec
CONSTANT InitSt <- OctInitSt
CONSTANT Step <- OctStep
CHECK_DEADLOCK FALSE
