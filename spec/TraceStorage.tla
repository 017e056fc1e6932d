---------------------------- MODULE TraceStorage ----------------------------
(* Where real collections were found to live is allowed by Storage.           *)
EXTENDS Storage, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ok, cap, kind
TraceInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].o = "reset"}
             /\ Init /\ ok = TRUE
             /\ cap = Trace[l].cap /\ kind = Trace[l].kind
TraceNext == /\ l < Len(Trace) /\ ok
             /\ Trace[l+1].o # "reset"
             /\ l' = l + 1
             /\ UNCHANGED <<cap, kind>>
             /\ Do(Trace[l+1], cap, kind)
             /\ ok' = Allowed(Trace[l+1], cap, kind)
Ok == ok
=============================================================================
