------------------------------ MODULE TraceLazy ------------------------------
(* Recorded histories of handles on archived trees, judged step by step.     *)
EXTENDS Lazy, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)
VARIABLES l, ok
TraceInit == Init /\ ok = TRUE /\ l \in {i - 1 : i \in {i \in 1..N : Trace[i].o = "open"}}
Do(e) == CASE e.o = "open"  -> Open(e.h, SetOf(e.es))
           [] e.o = "clone" -> CloneTo(e.h, e.g)
           [] e.o = "drop"  -> Discard(e.h)
           [] e.o = "par"   -> IF IOEnv.WHAT = "shaken" THEN Shake(e.ts) ELSE Work(e.ts)
           [] e.o = "end"   -> UNCHANGED vars
(* opening and cloning load nothing *)
Allowed(e) == CASE e.o = "open"  -> e.ev = <<>> /\ e.top = TopOf(SetOf(e.es))
                [] e.o = "clone" -> IOEnv.WHAT = "shaken" \/ top[e.h] = -1 \/ e.ev = <<>>
                [] e.o = "drop"  -> TRUE
                [] e.o = "end"   -> EndAllowed(e.h, e.g)
                [] e.o = "par" /\ IOEnv.WHAT = "shaken" -> ShakenAllowed(e.ts)
                [] e.o = "par"   -> (IOEnv.WHAT = "lazy" => WorkAllowed(e.ts)) /\ ListsAllowed(e.ts, IOEnv.WHAT = "arcs")
TraceNext == /\ l < N /\ ok
             /\ Trace[l + 1].o = "open" => base = {}      \* each history on its own
             /\ l' = l + 1
             /\ ok' = Allowed(Trace[l + 1])
             /\ Do(Trace[l + 1])
Ok == ok
=============================================================================
