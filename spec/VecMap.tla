------------------------------- MODULE VecMap -------------------------------
(* A few named vector maps as finite maps, one action per public call.       *)
EXTENDS MapSem

CONSTANT Regs
VARIABLES maps, ret

Init == maps = [i \in Regs |-> {}] /\ ret = <<>>
Set(i, M) == maps' = [maps EXCEPT ![i] = M]

Build(i, s)      == Set(i, LastPairs(s)) /\ ret' = <<>>
DoInsert(i, k, v) == Set(i, Put(maps[i], k, v)) /\ ret' = Lookup(maps[i], k)
(* get_mut: report the value found and change it *)
Mutate(i, k, v)  == /\ ret' = Lookup(maps[i], k)
                    /\ Set(i, IF Has(maps[i], k) THEN Put(maps[i], k, v) ELSE maps[i])
DoRetain(i, m)   == Set(i, RetainMap(maps[i], m)) /\ ret' = <<>>
Extend(i, s)     == Set(i, Merge(maps[i], LastPairs(s))) /\ ret' = <<>>
MergeWith(i, j)  == Set(i, Merge(maps[i], maps[j])) /\ ret' = <<>>
CombineWith(i, j, m) == Set(i, Combine(maps[i], maps[j], m)) /\ ret' = <<>>
MapValues(i, k, m) == Set(k, MapAll(maps[i], m)) /\ ret' = <<>>
Clone(i, j)      == Set(i, maps[j]) /\ ret' = <<>>
Same(i)          == UNCHANGED maps /\ ret' = <<>>
Join(k, i, jn, j, m) == Set(k, JoinResult(jn, maps[i], maps[j], m)) /\ ret' = <<>>
Query(i, ks)     == /\ UNCHANGED maps
                    /\ ret' = [n \in 1..Len(ks) |-> IF Has(maps[i], ks[n]) THEN At(maps[i], ks[n]) ELSE -1]

Do(e) == CASE e.o = "new"    -> Build(e.i, <<>>)
           [] e.o = "single" -> Build(e.i, e.ps)
           [] e.o \in {"collect", "frombtree"} -> Build(e.i, e.ps)
           [] e.o = "insert" -> DoInsert(e.i, e.ps[1][1], e.ps[1][2])
           [] e.o = "mutate" -> Mutate(e.i, e.ps[1][1], e.ps[1][2])
           [] e.o = "retain" -> DoRetain(e.i, e.m)
           [] e.o = "extend" -> Extend(e.i, e.ps)
           [] e.o = "merge"  -> MergeWith(e.i, e.j)
           [] e.o = "combine" -> CombineWith(e.i, e.j, e.m)
           [] e.o = "mapvalues" -> MapValues(e.i, e.k, e.m)
           [] e.o = "clone"  -> Clone(e.i, e.j)
           [] e.o = "roundtrip" -> Same(e.i)
           [] e.o = "query"  -> Query(e.i, e.xs)
           [] e.o \in {"oj", "ow"} -> Join(IF e.o = "oj" THEN e.k ELSE e.i, e.i, "o", e.j, e.m)
           [] e.o \in {"lj", "lw"} -> Join(IF e.o = "lj" THEN e.k ELSE e.i, e.i, "l", e.j, e.m)
           [] e.o \in {"rj", "rw"} -> Join(IF e.o = "rj" THEN e.k ELSE e.i, e.i, "r", e.j, e.m)
           [] e.o \in {"ij", "iw"} -> Join(IF e.o = "ij" THEN e.k ELSE e.i, e.i, "i", e.j, e.m)

TypeOK == \A i \in Regs : IsMap(maps[i])
=============================================================================
