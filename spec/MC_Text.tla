------------------------------ MODULE MC_Text ------------------------------
(* What the text says identifies the collection among those of its kind.     *)
EXTENDS Text, SequencesExt, FiniteSets

CONSTANTS Keys, Vals
Ordered(S) == SetToSortSeq(S, <)
Sets == {<<"set", Ordered(S), neg, <<>>>> : S \in SUBSET Keys, neg \in {0, 1}}
Entries(f) == [i \in 1..Cardinality(DOMAIN f) |-> <<Ordered(DOMAIN f)[i], f[Ordered(DOMAIN f)[i]]>>]
Maps == UNION {{<<"map", Entries(f), 0, <<>>>> : f \in [S -> Vals]} : S \in SUBSET Keys}
Totals == UNION {UNION {{<<"map", Entries(f), 0, <<d>>>> : f \in [S -> Vals \ {d}]} : S \in SUBSET Keys} : d \in Vals}

VARIABLE c
Init == c \in [kind : {"sets", "maps", "totals"}]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Kind == CASE c.kind = "sets" -> Sets [] c.kind = "maps" -> Maps [] c.kind = "totals" -> Totals
Identifies == Cardinality({Said(x[1], x[2], x[3], x[4]) : x \in Kind}) = Cardinality(Kind)
=============================================================================
