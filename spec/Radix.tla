------------------------------- MODULE Radix --------------------------------
(* A few named radix trees as finite maps, one action per public call. Every *)
(* action changes at most one of them: trees are values.                     *)
EXTENDS RadixSem

CONSTANT Regs
VARIABLES maps, ret

Init == maps = [i \in Regs |-> {}] /\ ret = [kind |-> "none"]
Nothing   == ret' = [kind |-> "none"]
Set(i, M) == maps' = [maps EXCEPT ![i] = M]
Build(i, M) == Set(i, M) /\ Nothing
(* the callback is called for the keys ks *)
Called(i, j, ks) == ret' = [kind |-> "calls", a |-> maps[i], b |-> maps[j], keys |-> ks]

OuterInto(k, i, j, m) == Set(k, Outer(maps[i], maps[j], m)) /\ Called(i, j, Both(maps[i], maps[j]))
InnerInto(k, i, j, m) == Set(k, Inner(maps[i], maps[j], m)) /\ Called(i, j, Both(maps[i], maps[j]))
LeftInto(k, i, j, m)  == Set(k, Left(maps[i], maps[j], m)) /\ Called(i, j, Dom(maps[i]))
LeftIn(i, j, m)       == Set(i, LeftWith(maps[i], maps[j], m)) /\ Called(i, j, Both(maps[i], maps[j]))
Query(i, es) == UNCHANGED maps /\ ret' = [kind |-> "is", r |-> [n \in 1..Len(es) |-> Get(maps[i], es[n][1])]]
Scan(i, p)   == UNCHANGED maps /\ ret' = [kind |-> "lists", m |-> Filter(maps[i], p)]
Rel(i, j)    == UNCHANGED maps /\ ret' = [kind |-> "is", r |-> Relations(maps[i], maps[j])]

Do(e) == CASE e.o = "new"     -> Build(e.i, {})
           [] e.o = "leaf"    -> Build(e.i, {<<<<>>, e.m>>})
           [] e.o = "single"  -> Build(e.i, {<<e.xs, e.m>>})
           [] e.o = "collect" -> Build(e.i, LastPairs(e.es))
           [] e.o = "insert"  -> Build(e.i, Put(maps[e.i], e.xs, e.m))
           [] e.o = "filter"  -> Build(e.k, Filter(maps[e.i], e.xs))
           [] e.o = "prepend" -> Build(e.i, Prepend(maps[e.i], e.xs))
           [] e.o = "clone"   -> Build(e.i, maps[e.j])
           [] e.o = "reload"  -> UNCHANGED maps /\ Nothing
           [] e.o = "query"   -> Query(e.i, e.es)
           [] e.o = "scan"    -> Scan(e.i, e.xs)
           [] e.o = "rel"     -> Rel(e.i, e.j)
           [] e.o = "union"   -> Build(e.k, Union(maps[e.i], maps[e.j]))
           [] e.o = "inter"   -> Build(e.k, Inter(maps[e.i], maps[e.j]))
           [] e.o = "diff"    -> Build(e.k, Diff(maps[e.i], maps[e.j]))
           [] e.o = "unionw"  -> Build(e.i, Union(maps[e.i], maps[e.j]))
           [] e.o = "interw"  -> Build(e.i, Inter(maps[e.i], maps[e.j]))
           [] e.o = "diffw"   -> Build(e.i, Diff(maps[e.i], maps[e.j]))
           [] e.o = "rmp"     -> Build(e.i, RemovePrefix(maps[e.i], maps[e.j], e.m))
           [] e.o = "rtp"     -> Build(e.i, RetainPrefix(maps[e.i], maps[e.j], e.m))
           [] e.o = "outer"   -> OuterInto(e.k, e.i, e.j, e.m)
           [] e.o = "outerw"  -> OuterInto(e.i, e.i, e.j, e.m)
           [] e.o = "inner"   -> InnerInto(e.k, e.i, e.j, e.m)
           [] e.o = "innerw"  -> InnerInto(e.i, e.i, e.j, e.m)
           [] e.o = "left"    -> LeftInto(e.k, e.i, e.j, e.m)
           [] e.o = "leftw"   -> LeftIn(e.i, e.j, e.m)

TypeOK == \A i \in Regs : IsMap(maps[i])
=============================================================================
