------------------------------ MODULE TraceOwn ------------------------------
(* Recorded histories of collections of traced values. Every call's births,  *)
(* uses and deaths are legal and leave exactly the held values alive (C24);   *)
(* the same when user code failed in the call: then, in addition, only the    *)
(* collection being changed in place may differ from before, it holds only    *)
(* values it could have, and it is ordered unless a comparison failed (C25).  *)
(* Sets and maps also follow VecSet and VecMap, before and after failures.    *)
EXTENDS Ownership, TLC, Json, IOUtils

VARIABLES l, ok, h, st, own, sets, maps, ret
vars == <<l, ok, h, st, own, sets, maps, ret>>

Regs == 1..3
S == INSTANCE VecSet
M == INSTANCE VecMap

Trace == ndJsonDeserialize(IOEnv.TRACE)

Compare == 1      \* of the kinds of failure, the failing comparison

(* calls that build a new collection and then put it into register k, or i *)
IntoK == {"u3", "i3", "d3", "x3", "not3", "oj", "lj", "rj", "ij", "mapvalues", "filter",
          "union", "inter", "diff", "outer", "inner", "left", "sup", "inf"}
         \union (IF h.kind = "tmap" THEN {"combine"} ELSE {})
IntoI == {"new", "single", "leaf", "collect", "fromvec", "frombtree", "clone", "const"}
Looks == {"query", "relate", "rel", "scan"}
Untouched(e) == IF e.o \in Looks \/ (e.p = 1 /\ e.o \in IntoK \union IntoI) THEN Regs
                ELSE Regs \ {IF e.o \in IntoK THEN e.k ELSE e.i}

(* references in the hands of the user are judged unless HELD=0 *)
Events(e) == IF IOEnv.HELD = "0" THEN SelectSeq(e.ev, LAMBDA x : Kind(x) # Held) ELSE e.ev

SetSeen(e)  == [i \in Regs |-> S!SetOf(e.all[i])]
MapSeen(e)  == [i \in Regs |-> S!SetOf(e.all[i])]
Keyed(s)    == {s[n][1] : n \in 1..Len(s)}

SetOk(e) == IF e.p = 0 THEN \A i \in Regs : S!Represents(e.all[i], sets'[i])
            ELSE \A i \in Regs :
                   /\ i \in Untouched(e) => S!Represents(e.all[i], sets[i])
                   /\ e.fault # Compare => S!Increasing(e.all[i])
                   /\ S!SetOf(e.all[i]) \subseteq sets[i] \union sets[S!Max(e.j, 1)] \union S!SetOf(e.xs) \union {e.x}
MapOk(e) == IF e.p = 0 THEN \A i \in Regs : M!RepresentsMap(e.all[i], maps'[i])
            ELSE \A i \in Regs :
                   /\ i \in Untouched(e) => M!RepresentsMap(e.all[i], maps[i])
                   /\ e.fault # Compare => \A n \in 1..(Len(e.all[i]) - 1) : e.all[i][n][1] < e.all[i][n+1][1]
                   /\ Keyed(e.all[i]) \subseteq {p[1] : p \in maps[i] \union maps[S!Max(e.j, 1)]} \union Keyed(e.ps)

Empty(e) == e.o \in {"drain", "discard"}
Contents(e) ==
    CASE h.kind = "set" /\ e.p = 0 /\ ~Empty(e) -> S!Do(e) /\ UNCHANGED maps
      [] h.kind = "set" /\ e.p = 0 /\ Empty(e)  -> sets' = [sets EXCEPT ![e.i] = {}] /\ UNCHANGED <<maps, ret>>
      [] h.kind = "set" /\ e.p = 1              -> sets' = SetSeen(e) /\ UNCHANGED <<maps, ret>>
      [] h.kind = "map" /\ e.p = 0 /\ ~Empty(e) -> M!Do(e) /\ UNCHANGED sets
      [] h.kind = "map" /\ e.p = 0 /\ Empty(e)  -> maps' = [maps EXCEPT ![e.i] = {}] /\ UNCHANGED <<sets, ret>>
      [] h.kind = "map" /\ e.p = 1              -> maps' = MapSeen(e) /\ UNCHANGED <<sets, ret>>
      [] OTHER -> UNCHANGED <<sets, maps, ret>>

TraceInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].o = "reset"}
             /\ h = [kind |-> Trace[l].kind, shared |-> Trace[l].shared]
             /\ st = After(Nothing, Trace[l].ev)
             /\ own = Trace[l].own
             /\ ok = Quiescent(st, own, h.shared)
             /\ sets = [i \in Regs |-> {}] /\ maps = sets /\ ret = <<>>

(* the end of a history drops everything *)
Call(e) == /\ Contents(e)
           /\ ok' = /\ Quiescent(st', own', h.shared)
                    /\ e.p = S!B(e.fault # 0)
                    /\ \A i \in Untouched(e) : own'[i] = own[i]
                    /\ h.kind = "set" => SetOk(e)
                    /\ h.kind = "map" => MapOk(e)
End(e) == /\ UNCHANGED <<sets, maps, ret>>
          /\ ok' = (st'.legal /\ st'.live = {})

TraceNext == /\ l < Len(Trace) /\ ok
             /\ Trace[l+1].o # "reset"
             /\ l' = l + 1
             /\ UNCHANGED h
             /\ st' = After(st, Events(Trace[l+1]))
             /\ own' = Trace[l+1].own
             /\ IF Trace[l+1].o = "end" THEN End(Trace[l+1]) ELSE Call(Trace[l+1])
Ok == ok
=============================================================================
