------------------------------- MODULE Valid --------------------------------
(* What validated access may let through (C23): a view of a set or map is    *)
(* strictly increasing, a view of a tree is finite and canonically ordered,  *)
(* holds proper values only, and its lookups agree with its iteration.       *)
EXTENDS RadixSem

Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i+1]
Proper(x, top) == x >= 0 /\ x <= top

SetView(v, top) ==
    /\ Increasing(v.it) /\ \A i \in 1..Len(v.it) : Proper(v.it[i], top[1])
    /\ v.has = [i \in 1..Len(v.it) |-> 1]
    /\ v.n = Len(v.it) /\ v.emp = B(v.it = <<>>)
    /\ v.sub = 1 /\ v.dis = B(v.it = <<>>) /\ v.uni = v.it
MapView(v, top) ==
    /\ Increasing([i \in 1..Len(v.it) |-> v.it[i][1]])
    /\ \A i \in 1..Len(v.it) : Proper(v.it[i][1], top[1]) /\ Proper(v.it[i][2], top[2])
    /\ v.get = [i \in 1..Len(v.it) |-> v.it[i][2]]
    /\ v.n = Len(v.it) /\ v.emp = B(v.it = <<>>)

(* a stored tree in canonical order; unlike a canonical tree, it may hold    *)
(* nodes that are of no use                                                  *)
RECURSIVE Ordered(_)
Ordered(t) ==
    /\ \A i \in 1..Len(t[3]) : Len(t[3][i][1]) > 0 /\ Ordered(t[3][i])
    /\ \A i \in 1..(Len(t[3]) - 1) : t[3][i][1][1] < t[3][i+1][1][1]
RECURSIVE ProperTree(_, _)
ProperTree(t, top) ==
    /\ \A i \in 1..Len(t[1]) : Proper(t[1][i], top[1])
    /\ t[2] = -1 \/ Proper(t[2], top[2])
    /\ \A i \in 1..Len(t[3]) : ProperTree(t[3][i], top)
TreeView(v, top) ==
    /\ v.deep = 0                          \* no path is longer than the archive
    /\ Ordered(v.tree) /\ ProperTree(v.tree, top)
    /\ LET M == Entries(<<>>, v.tree)
       IN /\ Lists(v.it, M) /\ ListsValues(v.vals, v.it)
          /\ v.get = v.vals /\ v.has = [i \in 1..Len(v.it) |-> 1]
          /\ \A i \in 1..Len(v.less) : v.less[i][2] = Get(M, v.less[i][1])
          /\ \A i \in 1..Len(v.scan) : Lists(v.scan[i][2], Filter(M, v.scan[i][1]))
          /\ Canonical(v.tree) => v.emp = B(M = {}) /\ v.sub = 1 /\ v.met = B(M # {})
View(kind, v, top) == CASE kind = "set" -> SetView(v, top)
                        [] kind = "map" -> MapView(v, top)
                        [] OTHER        -> TreeView(v, top)
(* a list written as it is, and read as a set or as the keys of a map *)
ListAccepted(kind, s, res) ==
    IF Increasing(s) THEN /\ res.ok = 1
                          /\ kind = "set" => res.view.it = s
                          /\ kind = "map" => [i \in 1..Len(s) |-> res.view.it[i][1]] = s
    ELSE res.ok = 0
=============================================================================
