SPECIFICATION TraceSpec
CONSTANT InitSt <- UrlInitSt
CONSTANT Step <- UrlStep
CHECK_DEADLOCK FALSE
