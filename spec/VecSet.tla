------------------------------- MODULE VecSet -------------------------------
(* A few named vector sets as mathematical sets, one action per public call. *)
(* ret is what the call reports.                                             *)
EXTENDS SetSem

CONSTANT Regs
VARIABLES sets, ret

Init == sets = [i \in Regs |-> {}] /\ ret = <<>>

Put(i, S) == sets' = [sets EXCEPT ![i] = S]

New(i)          == Put(i, {}) /\ ret' = <<>>
Single(i, x)    == Put(i, {x}) /\ ret' = <<>>
Collect(i, s)   == Put(i, FirstWins(s)) /\ ret' = <<>>
DoInsert(i, x)  == Put(i, Insert(sets[i], x)) /\ ret' = <<B(~HasKey(sets[i], K(x)))>>
DoRemove(i, x)  == Put(i, Remove(sets[i], x)) /\ ret' = <<B(HasKey(sets[i], K(x)))>>
DoRetain(i, m)  == Put(i, Retain(sets[i], m)) /\ ret' = <<>>
DoExtend(i, s)  == Put(i, Extend(sets[i], s)) /\ ret' = <<>>
Clone(i, j)     == Put(i, sets[j]) /\ ret' = <<>>
Same(i)         == UNCHANGED sets /\ ret' = <<>>           \* shrinking, conversions there and back
Update(i, o, j) == Put(i, SetOp(o, sets[i], sets[j])) /\ ret' = <<>>
Produce(k, i, o, j) == Put(k, SetOp(o, sets[i], sets[j])) /\ ret' = <<>>
Query(i, s)     == /\ UNCHANGED sets
                   /\ ret' = [n \in 1..Len(s) |-> B(HasKey(sets[i], K(s[n])))]
Relate(i, j)    == /\ UNCHANGED sets
                   /\ ret' = <<B(Subset(sets[i], sets[j])), B(Subset(sets[j], sets[i])),
                               B(Disjoint(sets[i], sets[j])), B(Keys(sets[i]) = Keys(sets[j]))>>

(* the call described by record e *)
Do(e) == CASE e.o = "new"     -> New(e.i)
           [] e.o = "single"  -> Single(e.i, e.x)
           [] e.o \in {"collect", "fromvec", "frombtree"} -> Collect(e.i, e.xs)
           [] e.o = "insert"  -> DoInsert(e.i, e.x)
           [] e.o = "remove"  -> DoRemove(e.i, e.x)
           [] e.o = "retain"  -> DoRetain(e.i, e.x)
           [] e.o = "extend"  -> DoExtend(e.i, e.xs)
           [] e.o = "clone"   -> Clone(e.i, e.j)
           [] e.o \in {"shrink", "roundtrip"} -> Same(e.i)
           [] e.o \in {"uo", "ur", "uw"} -> Update(e.i, "u", e.j)
           [] e.o \in {"io", "ir", "iw"} -> Update(e.i, "i", e.j)
           [] e.o \in {"do", "dr", "dw"} -> Update(e.i, "d", e.j)
           [] e.o \in {"xo", "xr", "xw"} -> Update(e.i, "x", e.j)
           [] e.o = "u3" -> Produce(e.k, e.i, "u", e.j)
           [] e.o = "i3" -> Produce(e.k, e.i, "i", e.j)
           [] e.o = "d3" -> Produce(e.k, e.i, "d", e.j)
           [] e.o = "x3" -> Produce(e.k, e.i, "x", e.j)
           [] e.o = "query"  -> Query(e.i, e.xs)
           [] e.o = "relate" -> Relate(e.i, e.j)

TypeOK == \A i \in Regs : Canonical(sets[i])
=============================================================================
