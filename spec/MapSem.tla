------------------------------- MODULE MapSem -------------------------------
(* Finite maps as sets of pairs <<key, value>>, at most one per key, and the *)
(* callbacks the drivers pass in: families of functions given by a number m. *)
EXTENDS Elements

IsMap(M)   == \A p, q \in M : p[1] = q[1] => p = q
Dom(M)     == {p[1] : p \in M}
Has(M, k)  == \E p \in M : p[1] = k
At(M, k)   == (CHOOSE p \in M : p[1] = k)[2]
Lookup(M, k) == IF Has(M, k) THEN <<At(M, k)>> ELSE <<>>

(* the list s represents the map M: increasing by key *)
RepresentsMap(s, M) == /\ Len(s) = Cardinality(M)
                       /\ SetOf(s) = M
                       /\ \A i \in 1..(Len(s) - 1) : s[i][1] < s[i+1][1]

Put(M, k, v)  == {p \in M : p[1] # k} \cup {<<k, v>>}
Without(M, ks) == {p \in M : p[1] \notin ks}
Merge(M, N)   == Without(M, Dom(N)) \cup N               \* the right operand wins
LastPairs(s)  == {s[i] : i \in {j \in 1..Len(s) : \A n \in (j+1)..Len(s) : s[n][1] # s[j][1]}}

Bit(m, b) == ((m \div (2 ^ b)) % 2) = 1
(* keep iff the bit of the key, and for values of one parity the bit above it *)
RetainMap(M, m) == {p \in M : Bit(m, p[1] % 4) /\ (p[2] % 3 # 0 \/ Bit(m, 4))}

(* the callback of a join: kind 0 left only, 1 right only, 2 both. It keeps  *)
(* nothing if bit kind*4 + key mod 4 of m is set.                            *)
Declines(m, kind, k) == Bit(m, kind * 4 + (k % 4))
Value(kind, k, v, w) == (7 * k + 3 * v + 5 * w + kind + 1) % 97
Outcome(m, kind, k, v, w) == IF Declines(m, kind, k) THEN <<>> ELSE <<Value(kind, k, v, w)>>

(* the keys a join covers, and what the callback is given for each of them *)
Covers(j, M, N) == CASE j = "o" -> Dom(M) \cup Dom(N)
                     [] j = "l" -> Dom(M)
                     [] j = "r" -> Dom(N)
                     [] j = "i" -> Dom(M) \cap Dom(N)
KindOf(M, N, k) == IF ~Has(N, k) THEN 0 ELSE IF ~Has(M, k) THEN 1 ELSE 2
Call(M, N, k)   == <<k, KindOf(M, N, k),
                     IF Has(M, k) THEN At(M, k) ELSE -1,
                     IF Has(N, k) THEN At(N, k) ELSE -1>>
Calls(j, M, N)  == {Call(M, N, k) : k \in Covers(j, M, N)}
Arg(x) == IF x = -1 THEN 0 ELSE x
JoinResult(j, M, N, m) ==
    LET cs == {c \in Calls(j, M, N) : ~Declines(m, c[2], c[1])}
    IN {<<c[1], Value(c[2], c[1], Arg(c[3]), Arg(c[4]))>> : c \in cs}

(* combine: both sides present -> the function, else the value there is *)
CombineValue(m, v, w) == (2 * v + 3 * w + m) % 97
Combine(M, N, m) == Without(M, Dom(N)) \cup Without(N, Dom(M))
                    \cup {<<p[1], CombineValue(m, p[2], At(N, p[1]))>> : p \in {q \in M : Has(N, q[1])}}
MapValue(m, v) == (v * 2 + m) % 89
MapAll(M, m) == {<<p[1], MapValue(m, p[2])>> : p \in M}
=============================================================================
