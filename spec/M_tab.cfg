SPECIFICATION Spec
CONSTANT Alphabet <- Small
INVARIANTS WrittenAsRead WordsKnown OnlyWords StatusNumbers LooseAgrees
CHECK_DEADLOCK FALSE
