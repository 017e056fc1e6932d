----------------------------- MODULE TraceText -----------------------------
(* Debug output recorded from real collections says what Text says, whatever *)
(* the element type, the inline capacity and the layout.                     *)
EXTENDS Text, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)
VARIABLE l
Starts == {1 + (s * N) \div 16 : s \in 0..15} \cap 1..N
TraceInit == l \in Starts
TraceNext == l < N /\ (l + 1) \notin Starts /\ l' = l + 1

Ok == LET e == Trace[l] IN e.n = <<Said(e.t, e.a, e.neg, IF e.t = "map" THEN e.d ELSE <<>>)>>
=============================================================================
