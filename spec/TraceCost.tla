------------------------------ MODULE TraceCost ------------------------------
(* Comparisons counted in the real code stay within the bounds of Cost.       *)
EXTENDS Cost, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Starts == 16
TraceInit == l \in 1..Starts /\ l <= Len(Trace)
TraceNext == l + Starts <= Len(Trace) /\ l' = l + Starts

Lookup(o) == o \in {"lookup: contains", "lookup: abstract contains", "lookup: get", "lookup: get_mut", "lookup: negatable", "lookup: total",
                    "lookup: negated", "lookup: archived contains", "lookup: tree get", "lookup: tree contains", "lookup: tree scan",
                    "change: insert", "change: remove", "change: map insert", "change: negatable insert", "change: negatable remove",
                    "change: negated insert", "change: negated remove"}
Once(o)   == o \in {"sorted: set", "sorted: map", "sorted: from vec", "sorted: extend empty"}
Twice(o)  == o \in {"sorted: set, twice", "sorted: map, twice"}
(* building first, or looking at everything, takes linear time *)
Linear(o) == o \in {"extend", "map extend", "equal", "compare",
                    "tree subset", "tree superset", "tree disjoint", "tree intersects"}

Ok == LET e == Trace[l] IN
      CASE Lookup(e.o) -> e.cmp <= LookupBound(e.size)
        [] Once(e.o)   -> e.cmp <= SortedBound(e.size)
        [] Twice(e.o)  -> e.cmp <= SortedBound(2 * e.size)
        [] Linear(e.o) -> e.cmp <= DenseBound(e.blocks)
        [] OTHER       -> e.cmp <= DenseBound(e.blocks) /\ e.cmp <= SparseBound(e.blocks)
==============================================================================
