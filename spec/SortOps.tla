------------------------------ MODULE SortOps ------------------------------
(* Stable sorting, one pass of deduplication, and the incremental             *)
(* sort-and-deduplicate aggregator as functions on sequences of codes.        *)
(* Threshold stands for the 16 of the implementation.                         *)
EXTENDS Elements

CONSTANT Threshold

(* stable insertion sort by key *)
RECURSIVE StableInsert(_, _)
StableInsert(s, x) == IF s = <<>> \/ K(s[Len(s)]) <= K(x) THEN Append(s, x)
                      ELSE Append(StableInsert(SubSeq(s, 1, Len(s) - 1), x), s[Len(s)])
RECURSIVE StableSort(_)
StableSort(s) == IF s = <<>> THEN <<>>
                 ELSE StableInsert(StableSort(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

Swap(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]
(* one pass over the sorted slice; j: the last kept position *)
RECURSIVE Pass(_, _, _, _)
Pass(s, i, j, kp) ==
    IF i > Len(s) THEN SubSeq(s, 1, j)
    ELSE IF K(s[i]) # K(s[j]) THEN Pass(IF i # j + 1 THEN Swap(s, i, j + 1) ELSE s, i + 1, j + 1, kp)
    ELSE Pass(IF kp = "last" THEN Swap(s, i, j) ELSE s, i + 1, j, kp)
Dedup(s, kp) == IF s = <<>> THEN <<>> ELSE Pass(s, 2, 1, kp)
Compact(s, n, kp) == IF n < Len(s) THEN Dedup(StableSort(s), kp) ELSE s

(* appending one element to data d, whose first n are known to be strictly    *)
(* increasing, before the decision whether to compact                         *)
PushedTo(d, n, x, kp) ==
    IF n = Len(d) /\ d # <<>>
    THEN LET last == d[Len(d)] IN
         IF K(last) < K(x) THEN [d |-> Append(d, x), n |-> n + 1]
         ELSE IF K(last) = K(x)
              THEN [d |-> IF kp = "last" THEN [d EXCEPT ![Len(d)] = x] ELSE d, n |-> n]
              ELSE [d |-> Append(d, x), n |-> n]
    ELSE IF d = <<>> THEN [d |-> <<x>>, n |-> 1]
    ELSE [d |-> Append(d, x), n |-> n]
MustCompact(p) == Len(p.d) >= Threshold /\ Len(p.d) - p.n > p.n
Settled(p, kp) == IF MustCompact(p) THEN LET c == Compact(p.d, p.n, kp) IN [d |-> c, n |-> Len(c)] ELSE p
(* the whole of it: a.d the data, a.peak the most it ever held *)
RECURSIVE Aggregate(_, _, _)
Aggregate(s, kp, a) ==
    IF s = <<>> THEN [d |-> Compact(a.d, a.n, kp), peak |-> a.peak]
    ELSE LET p == PushedTo(a.d, a.n, Head(s), kp)
             q == Settled(p, kp)
         IN Aggregate(Tail(s), kp, [d |-> q.d, n |-> q.n, peak |-> Max(a.peak, Len(p.d))])
Collected(s, kp) == Aggregate(s, kp, [d |-> <<>>, n |-> 0, peak |-> 0])
=============================================================================
