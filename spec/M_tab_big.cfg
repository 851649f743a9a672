SPECIFICATION Spec
CONSTANT Alphabet <- Large
INVARIANTS WrittenAsRead WordsKnown OnlyWords StatusNumbers LooseAgrees
CHECK_DEADLOCK FALSE
