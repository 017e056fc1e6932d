------------------------------ MODULE TraceMap ------------------------------
(* Recorded histories of real vector maps are behaviours of VecMap.          *)
EXTENDS VecMap, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ok
tvars == <<maps, ret, l, ok>>

TraceInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].o = "reset"}
             /\ Init /\ ok = TRUE
Observed(e, M, r) ==
    /\ Len(e.all) = 1 /\ Len(e.m2) = 1 /\ Len(e.r) = 1
    /\ \A i \in Regs : /\ RepresentsMap(e.all[1][i], M[i])
                       /\ e.m2[1][i][1] = Cardinality(M[i])
                       /\ e.m2[1][i][2] = B(M[i] = {})
                       /\ e.m2[1][i][3] = B(M[i] = {})
    /\ e.r[1] = r
TraceNext == /\ l < Len(Trace) /\ ok
             /\ Trace[l+1].o # "reset"
             /\ l' = l + 1
             /\ Do(Trace[l+1])
             /\ ok' = Observed(Trace[l+1], maps', ret')
Ok == ok
=============================================================================
