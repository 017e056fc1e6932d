------------------------------ MODULE TraceIter ------------------------------
(* Recorded walks over sets and maps, conversions, and combinations through  *)
(* the sorted iterators (C27). The value under a key of a map is the code of *)
(* that key, so entries are recorded as codes as well.                       *)
EXTENDS SetSem, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)
VARIABLE l
Starts == {1 + (s * N) \div 16 : s \in 0..15} \cap 1..N
TraceInit == l \in Starts
TraceNext == l < N /\ (l + 1) \notin Starts /\ l' = l + 1

All(obs, v) == obs = <<v>>

(* An iterator is a position in the increasing list of elements.             *)
Left(s, p)     == Len(s) - p                          \* what it says is left
Item(s, p)     == IF p < Len(s) THEN s[p + 1] ELSE -1
Advance(s, p, k) == Min(Len(s), p + k)

(* a full walk and three more calls *)
Step(s, p) == <<Left(s, p), Left(s, p), Item(s, p)>>
Walk(s)    == [c \in 1..(Len(s) + 3) |-> Step(s, Min(Len(s), c - 1))]

(* nth(k) skips k and takes one *)
RECURSIVE Pos(_, _, _)
Pos(s, ks, n) == IF n = 0 THEN 0 ELSE Advance(s, Pos(s, ks, n - 1), ks[n] + 1)
Last(s, p)    == IF p < Len(s) THEN s[Len(s)] ELSE -1
Row(s, ks, cut) == [c \in 1..cut |-> Item(s, Pos(s, ks, c - 1) + ks[c])]
                   \o <<Left(s, Pos(s, ks, cut)), Last(s, Pos(s, ks, cut)), Left(s, Pos(s, ks, cut))>>
Jumps(s, ks)  == [c \in 1..(Len(ks) + 1) |-> Row(s, ks, c - 1)]

(* everything else that can be asked of an iterator at position p            *)
Nth(s, p, n)  == Item(s, p + n)
Asked(s, p)   ==
    LET n    == Left(s, p)
        rest == SubSeq(s, p + 1, Len(s))
    IN << <<Item(s, p), Last(s, p), Item(s, p), Last(s, p), Item(s, p), Last(s, p),
            1, 0, 1, 0, 1,
            (IF n < 3 THEN -1 - n ELSE Nth(s, p, 2)), Nth(s, p, 3), Max(n - 4, 0),
            Nth(s, p, 1), Nth(s, p, 2), Max(n - 3, 0),
            -1, -1>>,
          [c \in 1..((n + 1) \div 2) |-> rest[(2 * c) - 1]],
          rest, rest, rest >>
RECURSIVE AllAsked(_, _, _)
AllAsked(s, ks, cut) == IF cut > Len(ks) THEN <<>> ELSE Asked(s, Pos(s, ks, cut)) \o AllAsked(s, ks, cut + 1)

At(s, k)      == LET P == {p \in 1..Len(s) : K(s[p]) = k} IN IF P = {} THEN -1 ELSE s[CHOOSE p \in P : TRUE]
Rows(S, a, b) == LET q == Sorted(S) IN [p \in 1..Len(q) |-> <<q[p], At(a, q[p]), At(b, q[p])>>]

Record(e) == LET A == Keys(SetOf(e.a))
                 C == Keys(SetOf(e.b))
             IN /\ Increasing(e.a) /\ Increasing(e.b)
                /\ All(e.walk, Walk(e.a))
                /\ All(e.jump, Jumps(e.a, e.ks))
                /\ All(e.ask, AllAsked(e.a, e.ks, 0))
                /\ All(e.conv, e.a)
                /\ All(e.u, Sorted(A \cup C))
                /\ All(e.i, Sorted(A \cap C))
                /\ All(e.d, Sorted(A \ C))
                /\ All(e.x, Sorted((A \ C) \cup (C \ A)))
                /\ All(e.oj, Rows(A \cup C, e.a, e.b))
                /\ All(e.lj, Rows(A, e.a, e.b))
                /\ All(e.rj, Rows(C, e.a, e.b))
                /\ All(e.ij, Rows(A \cap C, e.a, e.b))
(* A long walk over 0, 1, .. n - 1, seen from the positions listed.          *)
LongRow(n, p) == << n - p, n - p, (IF p < n THEN p ELSE -1), p - 1, n - p,
                    (IF p < n THEN n - 1 ELSE -1), Max(n - p - 1, 0) >>
Long(e)   == All(e.long, [c \in 1..Len(e.at) |-> LongRow(e.n, e.at[c])] \o <<<<e.n, e.n, e.n>>>>)

Ok == IF "long" \in DOMAIN Trace[l] THEN Long(Trace[l]) ELSE Record(Trace[l])
=============================================================================
