------------------------------ MODULE Storage ------------------------------
(* Where the elements of small collections live. big[i]: since it was built   *)
(* or last shrunk, collection i has had (or may have had, while a call was    *)
(* being carried out) more elements than fit inline, so it may live on the    *)
(* heap; otherwise it must not.                                               *)
EXTENDS Integers, Sequences

CONSTANT Regs
VARIABLES size, big

Sizes(e) == [i \in Regs |-> e.at[i][1]]
OnHeap(e, i) == e.at[i][2] = 1
Room(e, i)   == e.at[i][3]

Init == size = [i \in Regs |-> 0] /\ big = [i \in Regs |-> FALSE]

Produce   == {"u3", "i3", "d3", "x3", "oj", "lj", "rj", "ij", "mapvalues"}
Reduce    == {"io", "ir", "iw", "do", "dr", "dw", "retain", "remove"}
ReduceMap == {"retain", "iw", "lw"}

Changed(e) == IF e.o \in Produce THEN e.k ELSE e.i
(* may the collection the call changed live on the heap afterwards? *)
May(e, cap, kind) ==
    LET over == e.at[Changed(e)][1] > cap IN
    CASE e.o \in {"new", "single", "frombtree", "shrink"} \union Produce -> over
      [] e.o = "collect" /\ kind = "set" -> over          \* shrunk when done
      [] e.o \in {"collect", "fromvec"}  -> over \/ e.given > cap
      [] e.o = "clone"     -> over \/ big[e.j]
      [] e.o = "roundtrip" -> TRUE                         \* may keep a vector's buffer
      \* add and drop as they go
      [] e.o \in {"xo", "xr", "xw", "rw", "ow"} -> over \/ big[e.i] \/ size[e.i] + size[e.j] > cap
      [] OTHER             -> over \/ big[e.i]

Do(e, cap, kind) == /\ size' = Sizes(e)
                    /\ big' = IF e.o \in {"query", "relate"} THEN big ELSE [big EXCEPT ![Changed(e)] = May(e, cap, kind)]

Allowed(e, cap, kind) ==
    /\ \A i \in Regs : OnHeap(e, i) => big'[i]
    /\ e.o \in (IF kind = "set" THEN Reduce ELSE ReduceMap) => e.allocs = 0
    /\ e.o = "shrink" => (OnHeap(e, e.i) => Room(e, e.i) = e.at[e.i][1])
=============================================================================
