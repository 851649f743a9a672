SPECIFICATION Spec
CONSTANTS
 MaxCalls = 2
 MaxOps = 0
 UseCalls = "all"
 Kinds = {"req", "resp"}
INVARIANTS FirstError Configured FieldsSaid CopyLaw Untouched ReadBack
CHECK_DEADLOCK FALSE
