-------------------------------- MODULE Lazy --------------------------------
(* Handles on one archived radix tree, loaded on demand. The archive is the  *)
(* finite map base. Opening makes a handle with nothing loaded below the top *)
(* node. Loading the top list of a handle creates an object: the tree of     *)
(* nodes that this handle, and every clone made from it afterwards, share.   *)
(* In an object each child list is loaded at most once. Changing a handle    *)
(* takes it out of the sharing: its contents become its own.                 *)
EXTENDS RadixSem

CONSTANT Handles
VARIABLES base,      \* the archived entries
          parents,   \* key of a node with a value -> path of the node whose child list it is in
          maps,      \* handle -> its contents
          top,       \* handle -> 0 (nothing loaded), an object, or -1 (changed) or -2 (no handle)
          loaded,    \* object -> set of paths of nodes whose child lists are loaded
          next       \* next object
vars == <<base, parents, maps, top, loaded, next>>

(* the nodes of the canonical tree are the keys and the places they branch   *)
Common(a, b) == SubSeq(a, 1, CHOOSE n \in 0..Len(a) : /\ IsPrefix(SubSeq(a, 1, n), b)
                                                      /\ n < Len(a) => ~IsPrefix(SubSeq(a, 1, n + 1), b))
Nodes(M) == LET D == Dom(M) IN D \cup {Common(p[1], p[2]) : p \in D \X D}
TopOf(M) == CHOOSE p \in Nodes(M) : \A q \in Nodes(M) : Len(p) <= Len(q)
ParentsOf(M) == LET ns == Nodes(M)
                IN [k \in Dom(M) \ {TopOf(M)} |->
                      CHOOSE p \in ns : /\ p # k /\ IsPrefix(p, k)
                                        /\ \A q \in ns : (q # k /\ IsPrefix(q, k)) => Len(q) <= Len(p)]
Siblings(p) == {k \in DOMAIN parents : parents[k] = p}

Count(ev, k) == Cardinality({i \in 1..Len(ev) : ev[i] = k})

(* -------- one thread's queries: q is a sequence of records -------- *)
Changes == {"insert", "diff", "union"}
After(M, q) == CASE q.q = "insert" -> Put(M, q.k, q.n)
                 [] q.q = "diff"   -> Diff(M, SetOf(q.es))
                 [] q.q = "union"  -> Union(M, SetOf(q.es))
                 [] OTHER          -> M
RECURSIVE Contents(_, _, _)
Contents(M, qs, n) == IF n = 0 THEN M ELSE After(Contents(M, qs, n - 1), qs[n])
FirstOf(s, M, n) == (* s is the beginning, up to n entries, of the ordered listing of M *)
    /\ Len(s) = (IF Cardinality(M) < n THEN Cardinality(M) ELSE n)
    /\ SetOf(s) \subseteq M
    /\ \A i \in 1..(Len(s) - 1) : LexLess(s[i][1], s[i+1][1])
    /\ Len(s) > 0 => \A e \in M : ~LexLess(s[Len(s)][1], e[1]) => e \in SetOf(s)
FirstValues(vs, M, n) ==
    LET m == IF Cardinality(M) < n THEN Cardinality(M) ELSE n
        Rank(e) == Cardinality({d \in M : LexLess(d[1], e[1])}) + 1
    IN Len(vs) = m /\ \A e \in M : Rank(e) <= m => vs[Rank(e)] = e[2]
Answer(M, q) ==
    CASE q.q = "get"    -> q.r = Get(M, q.k)
      [] q.q = "has"    -> q.r = B(q.k \in Dom(M))
      [] q.q = "empty"  -> q.r = B(M = {})
      [] q.q = "iter"   -> FirstOf(q.r, M, q.n)
      [] q.q = "vals"   -> FirstValues(q.r, M, q.n)
      [] q.q = "scan"   -> FirstOf(q.r, Filter(M, q.k), q.n)
      [] q.q = "filter" -> LET F == Filter(M, q.k)
                           IN q.r = IF F = {} THEN <<<<>>, -1>> ELSE <<TopOf(F), Get(F, TopOf(F))>>
      [] q.q = "rel"    -> q.r = Relations(M, SetOf(q.es))
      [] OTHER          -> TRUE
Answers(M, qs) == \A n \in 1..Len(qs) : Answer(Contents(M, qs, n), qs[n])

(* may the child list of node p be visited while answering q on base?        *)
LexUpTo(p, s) == ~LexLess(s[Len(s)][1], p)
Visits(q, p) ==
    CASE q.q \in {"get", "has", "filter"} -> IsPrefix(p, q.k)
      [] q.q = "empty" -> p = TopOf(base)
      [] q.q = "iter"  -> Len(q.r) < q.n \/ LexUpTo(p, q.r)
      [] q.q = "vals"  -> Len(q.r) < q.n \/ Cardinality({d \in base : LexLess(d[1], p)}) < q.n
      [] q.q = "scan"  -> IsPrefix(p, q.k) \/ (IsPrefix(q.k, p) /\ (Len(q.r) < q.n \/ LexUpTo(p, q.r)))
      [] q.q = "arcs"  -> FALSE
      [] OTHER         -> TRUE
(* a filtered tree has its own top node: the value found is cloned for it,   *)
(* and the child list of that node may be loaded for it alone                *)
Own(qs, k) == Cardinality({n \in 1..Len(qs) : /\ qs[n].q = "filter"
                                              /\ Filter(base, qs[n].k) # {}
                                              /\ LET found == TopOf(Filter(base, qs[n].k))
                                                 IN k = found \/ (k \in DOMAIN parents /\ parents[k] = found)})
(* the lists a thread has loaded, by the values it cloned                    *)
Loads(t) == {parents[k] : k \in {k \in DOMAIN parents : Count(t.ev, k) > Own(t.qs, k)}}
WellLoaded(t) ==
    /\ \A i \in 1..Len(t.ev) : t.ev[i] \in DOMAIN parents
    /\ \A p \in Loads(t) : /\ \E n \in 1..Len(t.qs) : Visits(t.qs[n], p)
                           /\ \A k \in Siblings(p) : Count(t.ev, k) >= 1 /\ Count(t.ev, k) <= 1 + Own(t.qs, k)
Changed(t) == \E n \in 1..Len(t.qs) : t.qs[n].q \in Changes
Sharing(t) == ~Changed(t) /\ top[t.h] >= 0

(* the last query may ask for all child lists in memory: it loads nothing,   *)
(* and those it gets are the ones loaded. r[1]: the values of their nodes,   *)
(* r[2]: how many values were cloned meanwhile. What filtering loads cannot  *)
(* be told exactly from outside: exact = no filtering in this history.       *)
Listed(t) == t.qs # <<>> /\ t.qs[Len(t.qs)].q = "arcs"
Filters(t) == \E n \in 1..Len(t.qs) : t.qs[n].q = "filter"
CodesIn(ps) == {Get(base, k) : k \in {k \in DOMAIN parents : parents[k] \in ps}}
ListsAllowed(ts, exact) ==
    \A i \in 1..Len(ts) : Listed(ts[i]) =>
        LET t    == ts[i]
            r    == t.qs[Len(t.qs)].r
            o    == top[t.h]
            mine == Loads(t) \cup (IF o > 0 THEN loaded[o] ELSE {})
            theirs == UNION {Loads(ts[j]) : j \in {j \in 1..Len(ts) : j # i /\ o > 0 /\ top[ts[j].h] = o}}
        IN /\ t.ok = 1 /\ r[2] = 0
           /\ Cardinality(SetOf(r[1])) = Len(r[1])
           /\ (Sharing(t) /\ ~Filters(t)) =>
                 /\ CodesIn(mine) \subseteq SetOf(r[1])
                 /\ exact => SetOf(r[1]) \subseteq CodesIn(mine \cup theirs)

(* ------------------------------- actions ------------------------------- *)
Init == /\ base = {} /\ parents = <<>> /\ next = 1 /\ loaded = <<>>
        /\ maps = [h \in Handles |-> {}] /\ top = [h \in Handles |-> -2]
Open(h, M) == /\ base' = M /\ parents' = ParentsOf(M) /\ next' = 1 /\ loaded' = <<>>
              /\ maps' = [g \in Handles |-> IF g = h THEN M ELSE {}]
              /\ top' = [g \in Handles |-> IF g = h THEN 0 ELSE -2]
CloneTo(h, g) == /\ maps' = [maps EXCEPT ![g] = maps[h]] /\ top' = [top EXCEPT ![g] = top[h]]
                 /\ UNCHANGED <<base, parents, loaded, next>>
Discard(h) == /\ maps' = [maps EXCEPT ![h] = {}] /\ top' = [top EXCEPT ![h] = -2]
              /\ UNCHANGED <<base, parents, loaded, next>>
(* threads work at the same time, each with its own handle: what they must   *)
(* see, hold and load                                                        *)
WorkAllowed(ts) ==
    LET T   == 1..Len(ts)
        S   == {t \in T : Sharing(ts[t])}
        Ld  == [t \in T |-> IF t \in S THEN Loads(ts[t]) ELSE {}]
    IN /\ \A t \in T : /\ ts[t].ok = 1
                       /\ Answers(maps[ts[t].h], ts[t].qs)
                       /\ \A i \in 1..Len(ts[t].held) : ts[t].held[i][1] = ts[t].held[i][2]
       /\ \A t \in S : WellLoaded(ts[t])
       /\ \A t \in S : top[ts[t].h] > 0 => Ld[t] \cap loaded[top[ts[t].h]] = {}
       /\ \A t, u \in S : (t # u /\ top[ts[t].h] > 0 /\ top[ts[t].h] = top[ts[u].h]) => Ld[t] \cap Ld[u] = {}
(* When cloning a value panics while a query loads a child list, that query  *)
(* has no answer (p = 1), but the list can be loaded later: all other        *)
(* queries, also of other threads, answer as ever. An interrupted change     *)
(* leaves a tree of intact values (held).                                    *)
Went(qs, n) == qs[n].p = 1 /\ qs[n].b > 0
ShakenAllowed(ts) ==
    \A t \in 1..Len(ts) : /\ ts[t].ok = 1
                          /\ \A n \in 1..Len(ts[t].qs) : Went(ts[t].qs, n) \/ Answer(maps[ts[t].h], ts[t].qs[n])
                          /\ \A i \in 1..Len(ts[t].held) : ts[t].held[i][1] = ts[t].held[i][2]
Shake(ts) == /\ maps' = [h \in Handles |-> LET Of == {t \in 1..Len(ts) : ts[t].h = h}
                                           IN IF Of = {} THEN maps[h]
                                              ELSE LET t == CHOOSE t \in Of : TRUE IN Contents(maps[h], ts[t].qs, Len(ts[t].qs))]
             /\ UNCHANGED <<base, parents, top, loaded, next>>
(* once all handles are gone: values still there, values dropped twice       *)
EndAllowed(left, twice) == left = 0 /\ twice = 0
Work(ts) ==
    LET T   == 1..Len(ts)
        S   == {t \in T : Sharing(ts[t])}
        New == {t \in S : top[ts[t].h] = 0 /\ Loads(ts[t]) # {}}      \* these create an object
        Id(t) == next + Cardinality({u \in New : u < t})
        Of(h) == {t \in T : ts[t].h = h}
    IN /\ maps' = [h \in Handles |-> IF Of(h) = {} THEN maps[h] ELSE LET t == CHOOSE t \in Of(h) : TRUE IN Contents(maps[h], ts[t].qs, Len(ts[t].qs))]
       /\ top' = [h \in Handles |-> IF Of(h) = {} THEN top[h]
                                    ELSE LET t == CHOOSE t \in Of(h) : TRUE
                                         IN IF Changed(ts[t]) THEN -1 ELSE IF t \in New THEN Id(t) ELSE top[h]]
       /\ loaded' = [o \in 1..(next - 1 + Cardinality(New)) |->
                        IF o < next THEN loaded[o] \cup UNION {Loads(ts[t]) : t \in {t \in S : top[ts[t].h] = o}}
                        ELSE LET t == CHOOSE t \in New : Id(t) = o IN Loads(ts[t])]
       /\ next' = next + Cardinality(New)
       /\ UNCHANGED <<base, parents>>
=============================================================================
