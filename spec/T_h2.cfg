SPECIFICATION TraceSpec
CONSTANT InitSt <- H2InitSt
CONSTANT Step <- H2Step
CHECK_DEADLOCK FALSE
