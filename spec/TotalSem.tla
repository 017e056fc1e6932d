------------------------------ MODULE TotalSem ------------------------------
(* Sets with negation and maps with a default over an unbounded universe of  *)
(* keys. Only the keys 0..n-1 are ever named, so the key n stands for all    *)
(* the others: a set is a subset of 0..n (co-finite iff n belongs to it) and *)
(* a total map is a function on 0..n (its default is the value at n).        *)
EXTENDS MapSem

TAll(n)    == 0..n
TNot(n, S) == (0..n) \ S
TSetOp(o, S, T) == CASE o = "u" -> S \cup T
                     [] o = "i" -> S \cap T
                     [] o = "d" -> S \ T
                     [] o = "x" -> (S \ T) \cup (T \ S)
(* what membership of the keys 0..n and some further unnamed keys looks like *)
Members(n, S, s) == /\ Len(s) > n
                    /\ \A p \in 1..Len(s) : s[p] = B(Min(p - 1, n) \in S)

Const(n, v)   == [k \in 0..n |-> v]
Other(f)      == Cardinality(DOMAIN f) - 1
Default(f)    == f[Other(f)]
Entries(f)    == {<<k, f[k]>> : k \in {q \in DOMAIN f : f[q] # Default(f)}}
FromMap(n, M, d) == [k \in 0..n |-> IF Has(M, k) THEN At(M, k) ELSE d]
Pointwise(Op(_, _), f, g) == [k \in DOMAIN f |-> Op(f[k], g[k])]
Values(f, s)  == /\ Len(s) > Other(f)
                 /\ \A p \in 1..Len(s) : s[p] = f[Min(p - 1, Other(f))]

(* values are numbers below 97 *)
Add(a, b) == (a + b) % 97
Sub(a, b) == (a + 97 - b) % 97
Mul(a, b) == (a * b) % 97
Div(a, b) == IF b = 0 THEN 0 ELSE a \div b
Neg(a)    == (97 - a) % 97
Larger(a, b)  == Max(a, b)
Smaller(a, b) == Min(a, b)
TMapOp(o, f, g, m) == CASE o = "add" -> Pointwise(Add, f, g)
                        [] o = "sub" -> Pointwise(Sub, f, g)
                        [] o = "mul" -> Pointwise(Mul, f, g)
                        [] o = "div" -> Pointwise(Div, f, g)
                        [] o = "sup" -> Pointwise(Larger, f, g)
                        [] o = "inf" -> Pointwise(Smaller, f, g)
                        [] o = "combine" -> [k \in DOMAIN f |-> CombineValue(m, f[k], g[k])]
=============================================================================
