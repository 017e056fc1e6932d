------------------------------- MODULE SetSem -------------------------------
(* What the operations of a vector set mean: functions on canonical sets of  *)
(* codes (at most one code per key).                                         *)
EXTENDS Elements

Canonical(S) == \A x, y \in S : K(x) = K(y) => x = y
HasKey(S, k) == \E x \in S : K(x) = k

Insert(S, x) == {y \in S : K(y) # K(x)} \cup {x}          \* replaces the stored element
Remove(S, x) == {y \in S : K(y) # K(x)}
Union(S, T)  == LET ks == Keys(S) IN S \cup {y \in T : K(y) \notin ks}   \* left element kept
Inter(S, T)  == LET kt == Keys(T) IN {x \in S : K(x) \in kt}
Diff(S, T)   == LET kt == Keys(T) IN {x \in S : K(x) \notin kt}
Xor(S, T)    == Diff(S, T) \cup Diff(T, S)
Extend(S, s) == Union(S, FirstWins(s))
(* predicates used as callbacks: keep iff bit (key mod 4) of the mask is set *)
MaskHas(m, k) == ((m \div (2 ^ (k % 4))) % 2) = 1
Retain(S, m) == {x \in S : MaskHas(m, K(x))}

Subset(S, T)   == Keys(S) \subseteq Keys(T)
Disjoint(S, T) == Keys(S) \cap Keys(T) = {}

SetOp(o, S, T) == CASE o = "u" -> Union(S, T)
                    [] o = "i" -> Inter(S, T)
                    [] o = "d" -> Diff(S, T)
                    [] o = "x" -> Xor(S, T)
=============================================================================
