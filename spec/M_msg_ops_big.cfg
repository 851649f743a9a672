SPECIFICATION Spec
CONSTANTS
 MaxCalls = 2
 MaxOps = 3
 UseCalls = "few"
 Kinds = {"req", "resp"}
INVARIANTS FirstError Configured FieldsSaid CopyLaw Untouched ReadBack
CHECK_DEADLOCK FALSE
