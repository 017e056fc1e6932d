----------------------------- MODULE TraceRadix -----------------------------
(* Recorded histories of real radix trees are behaviours of Radix: after     *)
(* every call every tree is the canonical tree of its map, and every way to  *)
(* look at it agrees. The observer is told which aspect to judge.            *)
EXTENDS Radix, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
What  == IOEnv.WHAT            \* "map", "shape" or "both"
VARIABLES l, ok
tvars == <<maps, ret, l, ok>>

TraceInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].o = "reset"}
             /\ Init /\ ok = TRUE
Answer(obs, r) == CASE r.kind = "none"  -> obs = <<>>
                    [] r.kind = "is"    -> obs = r.r
                    [] r.kind = "lists" -> Lists(obs, r.m)
                    [] r.kind = "calls" -> CallsAre(obs, r.a, r.b, r.keys)
MapView(v, M) == /\ Len(v[1]) = 1 /\ Lists(v[1][1], M)
                 /\ ListsValues(v[2], v[1][1]) /\ v[3] = B(M = {})
Observed(e, M, r) ==
    /\ Len(e.all) = 1
    /\ What # "shape" => Len(e.m2) = 1 /\ Len(e.r) = 1
    /\ \A i \in Regs : LET t == Tree(e.all[1][i])
                       IN /\ What # "shape" => MapView(e.m2[1][i], M[i])
                          /\ What # "map" => Canonical(t)
                          /\ Entries(<<>>, t) = M[i]
    (* the calls of in-place union and the like are not observable: their record is empty *)
    /\ What # "shape" => Answer(e.r[1], r)
TraceNext == /\ l < Len(Trace) /\ ok
             /\ Trace[l+1].o # "reset"
             /\ l' = l + 1
             /\ Do(Trace[l+1])
             /\ ok' = Observed(Trace[l+1], maps', ret')
Ok == ok
=============================================================================
