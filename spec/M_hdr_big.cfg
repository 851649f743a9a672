SPECIFICATION Spec
CONSTANTS
 MaxOps = 4
 Names <- Names2
 Values <- Values2
VIEW View
INVARIANTS Distinct Undisturbed Effect OrderKept Readable
CHECK_DEADLOCK FALSE
