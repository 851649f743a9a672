SPECIFICATION TraceSpec
CONSTANT InitSt <- HttpInitSt
CONSTANT Step <- HttpStep
CHECK_DEADLOCK FALSE
