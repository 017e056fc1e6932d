--------------------------- MODULE TraceTotalMap ---------------------------
(* Recorded histories of real total maps are behaviours of TotalMap.         *)
EXTENDS TotalMap, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ok

TraceInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].o = "reset"}
             /\ InitWith(Trace[l].x) /\ ok = TRUE
(* all: per map [stored entries, value at 0..n and at further keys];         *)
(* m2: per map [is_zero, is_one, equal to the first, second, .. map]         *)
Observed(e, F) ==
    /\ Len(e.all) = 1 /\ Len(e.m2) = 1
    /\ \A i \in Regs : /\ RepresentsMap(e.all[1][i][1], Entries(F[i]))
                       /\ Values(F[i], e.all[1][i][2])
                       /\ e.m2[1][i][1] = B(F[i] = Const(n, 0))
                       /\ e.m2[1][i][2] = B(F[i] = Const(n, 1))
                       /\ \A j \in Regs : e.m2[1][i][2 + j] = B(F[i] = F[j])
TraceNext == /\ l < Len(Trace) /\ ok
             /\ Trace[l+1].o # "reset"
             /\ l' = l + 1
             /\ Do(Trace[l+1])
             /\ ok' = Observed(Trace[l+1], regs')
Ok == ok
=============================================================================
