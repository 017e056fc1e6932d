------------------------------ MODULE TotalRep ------------------------------
(* Sets with negation and maps with a default as they are stored (elements   *)
(* and a flag, entries and a default), with the case distinctions of every   *)
(* operation, next to what they denote over an unbounded universe            *)
(* (TotalSem): a refinement step by step. Keys 0..n-1 are named, n stands    *)
(* for all others.                                                           *)
EXTENDS TotalSem

CONSTANTS Regs, n, Vals, What
VARIABLES els, neg,       \* stored sets
          den,            \* what they denote
          ents, dflt,     \* stored maps
          fun,            \* what they denote
          truthful        \* every question was answered correctly
vars == <<els, neg, den, ents, dflt, fun, truthful>>
Named == 0..(n - 1)

(* ------------------------------ sets ------------------------------ *)
Denotes(E, s) == IF s THEN (0..n) \ E ELSE E
AndR(E, s, F, t) == CASE ~s /\ ~t -> <<E \cap F, FALSE>> [] ~s /\ t -> <<E \ F, FALSE>>
                      [] s /\ ~t -> <<F \ E, FALSE>> [] OTHER -> <<F \cup E, TRUE>>
OrR(E, s, F, t)  == CASE ~s /\ ~t -> <<E \cup F, FALSE>> [] ~s /\ t -> <<F \ E, TRUE>>
                      [] s /\ ~t -> <<E \ F, TRUE>> [] OTHER -> <<F \cap E, TRUE>>
XorR(E, s, F, t) == <<(E \ F) \cup (F \ E), s # t>>
SubR(E, s, F, t) == CASE ~s /\ ~t -> <<E \ F, FALSE>> [] ~s /\ t -> <<E \cap F, FALSE>>
                      [] s /\ ~t -> <<E \cup F, TRUE>> [] OTHER -> <<F \ E, FALSE>>
OpR(o, E, s, F, t) == CASE o = "i" -> AndR(E, s, F, t) [] o = "u" -> OrR(E, s, F, t)
                        [] o = "x" -> XorR(E, s, F, t) [] o = "d" -> SubR(E, s, F, t)
SubsetR(E, s, F, t) == CASE ~s /\ ~t -> E \subseteq F [] ~s /\ t -> E \cap F = {} [] s /\ ~t -> FALSE [] OTHER -> F \subseteq E
DisjointR(E, s, F, t) == CASE ~s /\ ~t -> E \cap F = {} [] ~s /\ t -> E \subseteq F [] s /\ ~t -> F \subseteq E [] OTHER -> FALSE

SetIt(i, r) == els' = [els EXCEPT ![i] = r[1]] /\ neg' = [neg EXCEPT ![i] = r[2]]
DenIt(i, D) == den' = [den EXCEPT ![i] = D]
MapsSame == UNCHANGED <<ents, dflt, fun, truthful>>
SConst(i, b) == SetIt(i, <<{}, b>>) /\ DenIt(i, IF b THEN TAll(n) ELSE {}) /\ MapsSame
SFrom(i, E) == SetIt(i, <<E, FALSE>>) /\ DenIt(i, E) /\ MapsSame
SInsert(i, k) == SetIt(i, <<IF neg[i] THEN els[i] \ {k} ELSE els[i] \cup {k}, neg[i]>>) /\ DenIt(i, den[i] \cup {k}) /\ MapsSame
SRemove(i, k) == SetIt(i, <<IF neg[i] THEN els[i] \cup {k} ELSE els[i] \ {k}, neg[i]>>) /\ DenIt(i, den[i] \ {k}) /\ MapsSame
SNot(i) == SetIt(i, <<els[i], ~neg[i]>>) /\ DenIt(i, TNot(n, den[i])) /\ MapsSame
SOp(k, o, i, j) == SetIt(k, OpR(o, els[i], neg[i], els[j], neg[j])) /\ DenIt(k, TSetOp(o, den[i], den[j])) /\ MapsSame
SAsk(i, j) == /\ UNCHANGED <<els, neg, den, ents, dflt, fun>>
              /\ truthful' =
                   /\ \A k \in 0..n : (neg[i] # (k \in els[i])) = (k \in den[i])
                   /\ (~neg[i] /\ els[i] = {}) = (den[i] = {})
                   /\ (neg[i] /\ els[i] = {}) = (den[i] = 0..n)
                   /\ SubsetR(els[i], neg[i], els[j], neg[j]) = (den[i] \subseteq den[j])
                   /\ SubsetR(els[j], neg[j], els[i], neg[i]) = (den[j] \subseteq den[i])       \* superset
                   /\ DisjointR(els[i], neg[i], els[j], neg[j]) = (den[i] \cap den[j] = {})
                   /\ (els[i] = els[j] /\ neg[i] = neg[j]) = (den[i] = den[j])

(* ------------------------------ maps ------------------------------ *)
MapIt(i, M, d) == ents' = [ents EXCEPT ![i] = M] /\ dflt' = [dflt EXCEPT ![i] = d]
FunIt(i, f) == fun' = [fun EXCEPT ![i] = f]
SetsSame == UNCHANGED <<els, neg, den, truthful>>
At0(M, d, k) == IF Has(M, k) THEN At(M, k) ELSE d
(* join over all stored keys; entries equal to the new default are not kept *)
CombineR(Op(_, _), M, d, N2, e) ==
    LET r == Op(d, e)
        v(k) == CASE Has(M, k) /\ Has(N2, k) -> Op(At(M, k), At(N2, k))
                  [] Has(M, k) -> Op(At(M, k), e)
                  [] OTHER -> Op(d, At(N2, k))
    IN <<{p \in {<<k, v(k)>> : k \in Dom(M) \cup Dom(N2)} : p[2] # r}, r>>
Lim == Cardinality(Vals)
AddV(a, b) == (a + b) % Lim
MulV(a, b) == (a * b) % Lim
SubV(a, b) == (a + Lim - b) % Lim
NegV(a)    == (Lim - a) % Lim
MNew(i, M, d) == MapIt(i, {p \in M : p[2] # d}, d) /\ FunIt(i, FromMap(n, M, d)) /\ SetsSame
MComb(k, i, j, Op(_, _)) == LET r == CombineR(Op, ents[i], dflt[i], ents[j], dflt[j])
                            IN MapIt(k, r[1], r[2]) /\ FunIt(k, Pointwise(Op, fun[i], fun[j])) /\ SetsSame
MMap(k, i, Op(_)) == /\ LET d == Op(dflt[i]) IN MapIt(k, {p \in {<<q[1], Op(q[2])>> : q \in ents[i]} : p[2] # d}, d)
                     /\ FunIt(k, [x \in 0..n |-> Op(fun[i][x])]) /\ SetsSame
Half(a) == a \div 2
MAsk(i, j) == /\ UNCHANGED <<els, neg, den, ents, dflt, fun>>
              /\ truthful' =
                   /\ \A k \in 0..n : At0(ents[i], dflt[i], k) = fun[i][k]
                   /\ (ents[i] = ents[j] /\ dflt[i] = dflt[j]) = (fun[i] = fun[j])
                   /\ (ents[i] = {} /\ dflt[i] = 0) = (fun[i] = Const(n, 0))
                   /\ (ents[i] = {} /\ dflt[i] = 1) = (fun[i] = Const(n, 1))

Init == /\ els = [i \in Regs |-> {}] /\ neg = [i \in Regs |-> FALSE] /\ den = [i \in Regs |-> {}]
        /\ ents = [i \in Regs |-> {}] /\ dflt = [i \in Regs |-> 0] /\ fun = [i \in Regs |-> Const(n, 0)]
        /\ truthful = TRUE
SetNext == \/ \E i \in Regs, b \in BOOLEAN : SConst(i, b)
           \/ \E i \in Regs, E \in SUBSET Named : SFrom(i, E)
           \/ \E i \in Regs, k \in Named : SInsert(i, k) \/ SRemove(i, k)
           \/ \E i \in Regs : SNot(i)
           \/ \E i, j, k \in Regs, o \in {"u", "i", "d", "x"} : SOp(k, o, i, j)
           \/ \E i, j \in Regs : SAsk(i, j)
Maps == UNION {{{<<k, f[k]>> : k \in D} : f \in [D -> Vals]} : D \in SUBSET Named}
MapNext == \/ \E i \in Regs, M \in Maps, d \in Vals : MNew(i, M, d)
           \/ \E i, j, k \in Regs : MComb(k, i, j, AddV) \/ MComb(k, i, j, MulV) \/ MComb(k, i, j, SubV)
                                    \/ MComb(k, i, j, Larger) \/ MComb(k, i, j, Smaller)
           \/ \E i, k \in Regs : MMap(k, i, NegV) \/ MMap(k, i, Half)
           \/ \E i, j \in Regs : MAsk(i, j)
Next == IF What = "sets" THEN SetNext ELSE MapNext
Spec == Init /\ [][Next]_vars

SetsRefine == \A i \in Regs : els[i] \subseteq Named /\ Denotes(els[i], neg[i]) = den[i]
MapsRefine == \A i \in Regs : /\ IsMap(ents[i]) /\ dflt[i] = Default(fun[i])
                              /\ ents[i] = Entries(fun[i])          \* canonical: no entry equals the default
Truthful == truthful
(* the algebra of what is stored, checked on all pairs and triples *)
Reps == {<<E, s>> : E \in SUBSET Named, s \in BOOLEAN}
Op2(o, a, b) == OpR(o, a[1], a[2], b[1], b[2])
NotR(a) == <<a[1], ~a[2]>>
ASSUME What = "sets" =>
    /\ \A a, b \in Reps : /\ NotR(Op2("u", a, b)) = Op2("i", NotR(a), NotR(b))
                          /\ Op2("d", a, b) = Op2("i", a, NotR(b))
                          /\ Op2("x", a, b) = Op2("u", Op2("d", a, b), Op2("d", b, a))
                          /\ Op2("u", a, b) = Op2("u", b, a) /\ Op2("i", a, b) = Op2("i", b, a)
                          /\ Op2("u", a, NotR(a)) = <<{}, TRUE>> /\ Op2("i", a, NotR(a)) = <<{}, FALSE>>
                          /\ SubsetR(a[1], a[2], b[1], b[2]) = (Op2("u", a, b) = b)
                          /\ DisjointR(a[1], a[2], b[1], b[2]) = (Op2("i", a, b) = <<{}, FALSE>>)
    /\ \A a, b, c \in Reps : Op2("i", a, Op2("u", b, c)) = Op2("u", Op2("i", a, b), Op2("i", a, c))
=============================================================================
