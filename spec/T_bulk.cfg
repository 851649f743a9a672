SPECIFICATION TraceSpec
CONSTANT InitSt <- BulkInitSt
CONSTANT Step <- BulkStep
CHECK_DEADLOCK FALSE
