-------------------------------- MODULE M_tab -------------------------------
(* Every word of the vocabularies and every text one edit away from it: the *)
(* conversions are inverse to each other and accept nothing else.           *)
EXTENDS Tab, Json

CONSTANT Alphabet
VARIABLES kind, word, text, stage
vars == <<kind, word, text, stage>>
Small == {32, 46, 47, 48, 50, 57, 58, 65, 84, 95, 101, 112, 115}
Large == Small \cup {0, 9, 10, 13, 31, 33, 45, 49, 51, 52, 53, 54, 55, 56, 64, 66, 67, 68, 69, 71, 72, 76, 78, 79, 80, 82, 83, 85, 90, 91, 96, 97, 99, 104, 116, 119, 122, 123, 127}

Words(k) == CASE k = "mtd" -> MethodWords
              [] k = "ver" -> VersionTexts
              [] k = "sch" -> {SchemeWords[j] : j \in 1..Len(SchemeWords)}
              [] k = "stt" -> {StatusText(StatusTable[j][1]) : j \in 1..Len(StatusTable)} \cup {StatusText(n) : n \in {100, 199, 299, 600, 999}}
              [] k = "hn" -> FieldSet
Kinds == {"mtd", "ver", "sch", "stt", "hn"}
Value(k, q) == CASE k = "mtd" -> TextMethod(q) [] k = "ver" -> TextVersion(q) [] k = "stt" -> TextStatus(q)
                 [] k = "sch" -> TextScheme(q) [] k = "hn" -> Just(q)
Back(k, v) == CASE k = "stt" -> StatusText(v) [] k = "sch" -> v.text [] OTHER -> v
Edits(w) == {SubSeq(w, 1, p - 1) \o <<c>> \o SubSeq(w, p + 1, Len(w)) : p \in 1..Len(w), c \in Alphabet}
       \cup {SubSeq(w, 1, p - 1) \o <<c>> \o SubSeq(w, p, Len(w)) : p \in 1..(Len(w) + 1), c \in Alphabet}
       \cup {SubSeq(w, 1, p - 1) \o SubSeq(w, p + 1, Len(w)) : p \in 1..Len(w)}
       \cup {SubSeq(w, 1, p - 1) \o <<LowerC(w[p])>> \o SubSeq(w, p + 1, Len(w)) : p \in 1..Len(w)} \cup {Lower(w), Upper(w)}
Short(w) == Len(w) <= 8
Init == /\ kind \in Kinds /\ word \in Words(kind) /\ text = word /\ stage = 0
        /\ PrintT("SCRIPT " \o ToJson(<<[op |-> kind, b |-> text]>>))
Next == /\ stage = 0 /\ Short(word) /\ stage' = 1 /\ UNCHANGED <<kind, word>>
        /\ text' \in Edits(word) \ {word}
        /\ PrintT("SCRIPT " \o ToJson(<<[op |-> kind, b |-> text']>>))
Spec == Init /\ [][Next]_vars

(* what is accepted is written as it was read *)
WrittenAsRead == Value(kind, text) # NoneV => Back(kind, Value(kind, text)[1]) = text
WordsKnown == stage = 0 => Value(kind, text) # NoneV
(* an edited word is another word of the vocabulary or no word at all *)
OnlyWords == kind \in {"mtd", "ver"} => (Value(kind, text) # NoneV <=> text \in Words(kind))
StatusNumbers == kind = "stt" => (Value(kind, text) # NoneV <=> \E n \in 100..999 : StatusText(n) = text)
LooseAgrees == kind = "mtd" => LooseMethod(text) = LooseMethod(Lower(text)) /\ (TextMethod(text) # NoneV => LooseMethod(text) = TextMethod(text))
\* tables are functions
ASSUME \A i, j \in 1..Len(StatusTable) : StatusTable[i][1] = StatusTable[j][1] \/ StatusTable[i][2] = StatusTable[j][2] => i = j
ASSUME Cardinality(FieldSet) = Len(FieldWords) /\ NoAnswer \subseteq NoContent /\ NoContent \subseteq MethodWords
ASSUME \A n \in 100..999 : TextStatus(StatusText(n)) = Just(n)
=============================================================================
