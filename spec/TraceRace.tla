------------------------------ MODULE TraceRace ------------------------------
(* Threads worked at the same time, each on its own clone of one tree: each  *)
(* must have seen and ended up with just what its own calls make of the      *)
(* contents at the start.                                                    *)
EXTENDS Lazy, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)
VARIABLE l
Starts == {1 + (s * N) \div 16 : s \in 0..15} \cap 1..N
TraceInit == Init /\ l \in Starts
TraceNext == l + 1 \in (1..N) \ Starts /\ l' = l + 1 /\ UNCHANGED vars
Fine(t, M) == Answers(M, t.qs) /\ Lists(t.final, Contents(M, t.qs, Len(t.qs)))
Ok == \A i \in 1..Len(Trace[l].ts) : Fine(Trace[l].ts[i], SetOf(Trace[l].es))
=============================================================================
