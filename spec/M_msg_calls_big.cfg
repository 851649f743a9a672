SPECIFICATION Spec
CONSTANTS
 MaxCalls = 3
 MaxOps = 0
 UseCalls = "all"
 Kinds = {"req", "resp"}
INVARIANTS FirstError Configured FieldsSaid CopyLaw Untouched ReadBack
CHECK_DEADLOCK FALSE
