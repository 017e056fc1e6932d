--------------------------- MODULE TraceTotalSet ---------------------------
(* Recorded histories of real sets with negation are behaviours of TotalSet. *)
EXTENDS TotalSet, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ok

TraceInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].o = "reset"}
             /\ InitWith(Trace[l].x) /\ ok = TRUE
(* all: membership of 0..n and of further keys; m2: per set [is_empty,       *)
(* is_all, equal to the first, second, .. set]                               *)
Observed(e, S, r) ==
    /\ Len(e.all) = 1 /\ Len(e.m2) = 1 /\ Len(e.r) = 1
    /\ \A i \in Regs : /\ Members(n, S[i], e.all[1][i])
                       /\ e.m2[1][i][1] = B(S[i] = {})
                       /\ e.m2[1][i][2] = B(S[i] = TAll(n))
                       /\ \A j \in Regs : e.m2[1][i][2 + j] = B(S[i] = S[j])
    /\ e.r[1] = r
TraceNext == /\ l < Len(Trace) /\ ok
             /\ Trace[l+1].o # "reset"
             /\ l' = l + 1
             /\ Do(Trace[l+1])
             /\ ok' = Observed(Trace[l+1], regs', ret')
Ok == ok
=============================================================================
