------------------------------ MODULE Elements ------------------------------
(* Elements of sets are codes key*8+tag: only the key takes part in the      *)
(* order, the tag tells equal elements apart (which representative is kept). *)
EXTENDS Integers, Sequences, FiniteSets

K(e)    == e \div 8
Tag(e)  == e % 8
Code(k, t) == k * 8 + t

SetOf(s)  == {s[i] : i \in 1..Len(s)}
Keys(S)   == {K(e) : e \in S}

(* a list is canonical: strictly increasing by key *)
Increasing(s) == \A i \in 1..(Len(s) - 1) : K(s[i]) < K(s[i+1])
IncreasingInts(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i+1]

B(p) == IF p THEN 1 ELSE 0
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* the list s represents the set S *)
Represents(s, S) == /\ Len(s) = Cardinality(S)
                    /\ SetOf(s) = S
                    /\ Increasing(s)

(* the increasing list of a canonical set of codes *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                  IN <<m>> \o Sorted(S \ {m})

(* of equal elements in a sequence, the first (last) one *)
FirstWins(s) == {s[i] : i \in {j \in 1..Len(s) : \A n \in 1..(j-1) : K(s[n]) # K(s[j])}}
LastWins(s)  == {s[i] : i \in {j \in 1..Len(s) : \A n \in (j+1)..Len(s) : K(s[n]) # K(s[j])}}
=============================================================================
