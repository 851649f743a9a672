SPECIFICATION TraceSpec
CONSTANT InitSt <- OutInitSt
CONSTANT Step <- OutStep
CHECK_DEADLOCK FALSE
