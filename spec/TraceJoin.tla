------------------------------ MODULE TraceJoin ------------------------------
(* Recorded single joins of two maps: in every form, the callback saw        *)
(* exactly the covered keys, once each, with the values present, and the     *)
(* result is what it kept.                                                   *)
EXTENDS MapSem, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)
VARIABLE l
Starts == {1 + (s * N) \div 16 : s \in 0..15} \cap 1..N
TraceInit == l \in Starts
TraceNext == l < N /\ (l + 1) \notin Starts /\ l' = l + 1

(* obs: the distinct outcomes [calls, result]; calls are sorted *)
Exactly(s, S) == Len(s) = Cardinality(S) /\ SetOf(s) = S
Good(obs, j, M, W, m) == /\ Len(obs) = 1
                         /\ Exactly(obs[1][1], Calls(j, M, W))
                         /\ RepresentsMap(obs[1][2], JoinResult(j, M, W, m))
Unchanged(obs, M) == Len(obs) = 1 /\ RepresentsMap(obs[1], M)
Record(e) == LET M == SetOf(e.a)
                 W == SetOf(e.b)
             IN /\ Good(e.oj, "o", M, W, e.m) /\ Good(e.lj, "l", M, W, e.m)
                /\ Good(e.rj, "r", M, W, e.m) /\ Good(e.ij, "i", M, W, e.m)
                /\ Unchanged(e.ao, M) /\ Unchanged(e.bo, W)
Ok == Record(Trace[l])
=============================================================================
