SPECIFICATION Spec
CONSTANTS
 MaxOps = 4
 Names <- Names1
 Values <- Values1
VIEW View
INVARIANTS Distinct Undisturbed Effect OrderKept Readable
CHECK_DEADLOCK FALSE
