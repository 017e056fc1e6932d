---------------------------- MODULE TraceArchive ----------------------------
(* Recorded queries on collections, their archives (with and without         *)
(* validation) and what was read back from them (C22). Every field lists the *)
(* distinct answers over all these variants: an archive is a representation  *)
(* of the same abstract value, so there is one answer, the one prescribed.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

S == INSTANCE SetSem
M == INSTANCE MapSem
R == INSTANCE RadixSem

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)
VARIABLE l
Starts == {1 + (s * N) \div 16 : s \in 0..15} \cap 1..N
TraceInit == l \in Starts
TraceNext == l < N /\ (l + 1) \notin Starts /\ l' = l + 1

One(obs, v) == obs = <<v>>
B(p) == IF p THEN 1 ELSE 0
SetOf(s) == {s[i] : i \in 1..Len(s)}

SetIs(obs, X)  == Len(obs) = 1 /\ S!Represents(obs[1], X)
SetAnswers(e) ==
    LET A == SetOf(e.a)
        C == SetOf(e.b)
    IN /\ One(e.it, e.a)
       /\ One(e.has, [i \in 1..Len(e.q) |-> B(S!HasKey(A, S!K(e.q[i])))])
       /\ One(e.emp, B(A = {}))
       /\ One(e.rel, <<B(S!Subset(A, C)), B(S!Subset(C, A)), B(S!Disjoint(A, C))>>)
       /\ One(e.rev, <<B(S!Subset(C, A)), B(S!Subset(A, C)), B(S!Disjoint(A, C))>>)
       /\ SetIs(e.u, S!Union(A, C)) /\ SetIs(e.i, S!Inter(A, C))
       /\ SetIs(e.d, S!Diff(A, C)) /\ SetIs(e.x, S!Xor(A, C))
       /\ One(e.ok, 1)                    \* a valid archive is accepted
       /\ One(e.eq, 1)                    \* what is read back is equal

MapIs(obs, X) == Len(obs) = 1 /\ M!RepresentsMap(obs[1], X)
MapAnswers(e) ==
    LET A == SetOf(e.a)
        C == SetOf(e.b)
    IN /\ MapIs(e.it, A)
       /\ One(e.get, [i \in 1..Len(e.q) |-> IF M!Has(A, e.q[i]) THEN M!At(A, e.q[i]) ELSE -1])
       /\ One(e.emp, B(A = {}))
       /\ MapIs(e.oj, M!JoinResult("o", A, C, e.m)) /\ MapIs(e.lj, M!JoinResult("l", A, C, e.m))
       /\ MapIs(e.rj, M!JoinResult("r", A, C, e.m)) /\ MapIs(e.ij, M!JoinResult("i", A, C, e.m))
       /\ One(e.ok, 1) /\ One(e.eq, 1)

TreeIs(obs, X) == Len(obs) = 1 /\ R!IsTreeOf(R!Tree(obs[1]), X)
TreeAnswers(e) ==
    LET A == SetOf(e.a)
        C == SetOf(e.b)
    IN /\ TreeIs(e.shape, A)
       /\ Len(e.it) = 1 /\ R!Lists(e.it[1], A)
       /\ Len(e.vals) = 1 /\ R!ListsValues(e.vals[1], e.it[1])
       /\ One(e.get, [i \in 1..Len(e.q) |-> R!Get(A, e.q[i])])
       /\ One(e.emp, B(A = {}))
       /\ Len(e.scan) = 1 /\ R!Lists(e.scan[1], R!Filter(A, e.p))
       /\ One(e.rel, R!Relations(A, C))
       /\ TreeIs(e.inner, R!Inner(A, C, 5)) /\ TreeIs(e.left, R!Left(A, C, 5))
       /\ TreeIs(e.inter, R!Inter(A, C)) /\ TreeIs(e.diff, R!Diff(A, C)) /\ TreeIs(e.union, R!Union(A, C))
       (* changing what was read back in one place changes nothing else *)
       /\ TreeIs(e.put, R!Put(A, e.k, e.v))
       /\ TreeIs(e.cut, {x \in A : ~R!IsPrefix(e.k, x[1])})
       /\ One(e.ok, 1)

(* Several collections in one archive: each of them is what it was, by       *)
(* itself, whatever the others are and whatever is shared between them.      *)
SeveralAnswers(e) ==
    LET A == SetOf(e.a)
        C == SetOf(e.b)
    IN /\ One(e.ok, 1) /\ One(e.read, 1)
       /\ TreeIs(e.x, A) /\ TreeIs(e.y, C)
       /\ TreeIs(e.w, {x \in A : \A y \in C : y[1] # x[1]} \cup C)
       /\ One(e.z, e.s)
       /\ Len(e.keys) = 1 /\ Len(e.keys[1]) = Cardinality(A) /\ SetOf(e.keys[1]) = {x[1] : x \in A}

Ok == CASE Trace[l].kind = "set"  -> SetAnswers(Trace[l])
        [] Trace[l].kind = "map"  -> MapAnswers(Trace[l])
        [] Trace[l].kind = "tree" -> TreeAnswers(Trace[l])
        [] Trace[l].kind = "several" -> SeveralAnswers(Trace[l])
=============================================================================
