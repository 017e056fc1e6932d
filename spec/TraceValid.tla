----------------------------- MODULE TraceValid -----------------------------
(* Recorded validated accesses to all sorts of bytes (C23).                  *)
EXTENDS Valid, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)
VARIABLE l
Starts == {1 + (s * N) \div 16 : s \in 0..15} \cap 1..N
TraceInit == l \in Starts
TraceNext == l < N /\ (l + 1) \notin Starts /\ l' = l + 1

Record(e) == /\ e.res.ok \in {0, 1}        \* it does not panic
             /\ e.res.ok = 1 => View(e.kind, e.res.view, e.top)
             /\ e.raw = 1 => ListAccepted(e.kind, e.s, e.res)
Ok == Record(Trace[l])
=============================================================================
