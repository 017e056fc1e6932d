------------------------------ MODULE RadixSem ------------------------------
(* Finite maps from key sequences to values (sets of pairs <<key, value>>),  *)
(* the operations of radix trees on them, and the canonical tree of a map.   *)
(* A tree is <<prefix, value or -1, children>>.                              *)
EXTENDS Integers, Sequences, FiniteSets

SetOf(s) == {s[i] : i \in 1..Len(s)}
B(p)     == IF p THEN 1 ELSE 0
Bit(m, b) == ((m \div (2 ^ b)) % 2) = 1

IsPrefix(p, k) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
Drop(k, n)     == SubSeq(k, n + 1, Len(k))
RECURSIVE LexLess(_, _)
LexLess(a, b)  == IF b = <<>> THEN FALSE
                  ELSE IF a = <<>> THEN TRUE
                  ELSE IF a[1] # b[1] THEN a[1] < b[1]
                  ELSE LexLess(Tail(a), Tail(b))

(* ------------------------------- maps ------------------------------- *)
IsMap(M)  == \A p, q \in M : p[1] = q[1] => p = q
Dom(M)    == {p[1] : p \in M}
At(M, k)  == (CHOOSE p \in M : p[1] = k)[2]
Get(M, k) == IF k \in Dom(M) THEN At(M, k) ELSE -1
Put(M, k, v) == {p \in M : p[1] # k} \cup {<<k, v>>}
Only(M, ks)  == {p \in M : p[1] \in ks}
LastPairs(s) == {s[i] : i \in {j \in 1..Len(s) : \A n \in (j+1)..Len(s) : s[n][1] # s[j][1]}}

Union(M, N) == M \cup Only(N, Dom(N) \ Dom(M))                     \* the left value is kept
Inter(M, N) == Only(M, Dom(M) \cap Dom(N))
Diff(M, N)  == Only(M, Dom(M) \ Dom(N))

(* the callbacks the drivers pass in; w = None if there is nothing on the right *)
None == 97
Declines(m, v, w) == Bit(m, (v + (2 * w)) % 8)
Value(m, v, w)    == ((3 * v) + (5 * w) + m + 1) % 97
Accepts(m, w)     == Bit(m, w % 4)
(* what the callback returns for the keys in ks, given the values on each side *)
Applied(M, N, ks, m) ==
    LET V(k) == At(M, k)
        W(k) == IF k \in Dom(N) THEN At(N, k) ELSE None
    IN {<<k, Value(m, V(k), W(k))>> : k \in {k \in ks : ~Declines(m, V(k), W(k))}}
Both(M, N)  == Dom(M) \cap Dom(N)
Outer(M, N, m) == Diff(M, N) \cup Diff(N, M) \cup Applied(M, N, Both(M, N), m)
Inner(M, N, m) == Applied(M, N, Both(M, N), m)
Left(M, N, m)  == Applied(M, N, Dom(M), m)                          \* producing
LeftWith(M, N, m) == Diff(M, N) \cup Applied(M, N, Both(M, N), m)   \* in place
(* the calls made: for each key covered, the values *)
CallOf(M, N, k) == <<At(M, k), IF k \in Dom(N) THEN At(N, k) ELSE None>>
CallsAre(s, M, N, ks) ==
    LET calls == {<<k, CallOf(M, N, k)>> : k \in ks}
    IN /\ Len(s) = Cardinality(ks)
       /\ \A c \in SetOf(s) \cup {x[2] : x \in calls} :
             Cardinality({i \in 1..Len(s) : s[i] = c}) = Cardinality({x \in calls : x[2] = c})

Filter(M, p)  == {e \in M : IsPrefix(p, e[1])}
Prepend(M, p) == {<<p \o e[1], e[2]>> : e \in M}
Shorten(M, n) == {<<SubSeq(e[1], n + 1, Len(e[1])), e[2]>> : e \in M}
Roots(N, m)   == {e[1] : e \in {e \in N : Accepts(m, e[2])}}
RemovePrefix(M, N, m) == {e \in M : ~\E p \in Roots(N, m) : IsPrefix(p, e[1])}
RetainPrefix(M, N, m) == {e \in M : \E p \in Roots(N, m) : IsPrefix(p, e[1])}

Subset(M, N)   == Dom(M) \subseteq Dom(N)
Disjoint(M, N) == Both(M, N) = {}
Relations(M, N) == <<B(Subset(M, N)), B(Subset(N, M)), B(Disjoint(M, N)), B(~Disjoint(M, N))>>

(* ------------------------------- trees ------------------------------- *)
(* trees of very many levels are recorded as <<"deep", nodes>>: their nodes  *)
(* <<prefix, value, number of children>> with each before what is below it   *)
RECURSIVE DeepAt(_, _), DeepsAt(_, _, _)
DeepAt(s, i) == LET below == DeepsAt(s, i + 1, s[i][3])
                IN <<<<s[i][1], s[i][2], below[1]>>, below[2]>>
DeepsAt(s, i, c) == IF c = 0 THEN <<<<>>, i>>
                    ELSE LET h == DeepAt(s, i)
                             t == DeepsAt(s, h[2], c - 1)
                         IN <<<<h[1]>> \o t[1], t[2]>>
Tree(x) == IF Len(x) = 2 THEN DeepAt(x[2], 1)[1] ELSE x

RECURSIVE Entries(_, _)
Entries(pre, t) == LET p == pre \o t[1]
                   IN (IF t[2] = -1 THEN {} ELSE {<<p, t[2]>>})
                      \cup UNION {Entries(p, t[3][i]) : i \in 1..Len(t[3])}
(* siblings start with distinct, increasing elements, below the top no node  *)
(* has an empty prefix, and only a bare node has neither value nor branching *)
RECURSIVE CanonicalChildren(_)
CanonicalChildren(cs) ==
    /\ \A i \in 1..Len(cs) : /\ Len(cs[i][1]) > 0
                             /\ cs[i][2] # -1 \/ Len(cs[i][3]) >= 2
                             /\ CanonicalChildren(cs[i][3])
    /\ \A i \in 1..(Len(cs) - 1) : cs[i][1][1] < cs[i+1][1][1]
Empty == <<<<>>, -1, <<>>>>
Canonical(t) == t = Empty \/ CanonicalChildren(<<<<(<<0>> \o t[1]), t[2], t[3]>>>>)
IsTreeOf(t, M) == Entries(<<>>, t) = M /\ Canonical(t)

(* the canonical tree, constructed *)
FirstLess(x, y) == x < y
RECURSIVE SortedInts(_)
SortedInts(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SortedInts(S \ {x})
Shortest(M) == CHOOSE k \in Dom(M) : \A j \in Dom(M) : Len(k) <= Len(j)
CommonLen(M) == LET k == Shortest(M)
                IN CHOOSE n \in 0..Len(k) : /\ \A j \in Dom(M) : IsPrefix(SubSeq(k, 1, n), j)
                                            /\ n < Len(k) => \E j \in Dom(M) : ~IsPrefix(SubSeq(k, 1, n + 1), j)
RECURSIVE TreeOf(_)
TreeOf(M) == IF M = {} THEN Empty
             ELSE LET n == CommonLen(M)
                      p == SubSeq(Shortest(M), 1, n)
                      rest == {<<Drop(e[1], n), e[2]>> : e \in {e \in M : e[1] # p}}
                      heads == SortedInts({e[1][1] : e \in rest})
                  IN <<p, Get(M, p), [i \in 1..Len(heads) |-> TreeOf({e \in rest : e[1][1] = heads[i]})]>>

(* an iteration: every entry once, in lexicographic order *)
Lists(s, M) == /\ Len(s) = Cardinality(M) /\ SetOf(s) = M
               /\ \A i \in 1..(Len(s) - 1) : LexLess(s[i][1], s[i+1][1])
(* the values alone, in the same order: s is the listing of the entries *)
ListsValues(vs, s) == vs = [i \in 1..Len(s) |-> s[i][2]]
=============================================================================
