SPECIFICATION Spec
CONSTANTS
 MaxCalls = 1
 MaxOps = 2
 UseCalls = "few"
 Kinds = {"req", "resp"}
INVARIANTS FirstError Configured FieldsSaid CopyLaw Untouched ReadBack
CHECK_DEADLOCK FALSE
