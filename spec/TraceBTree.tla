----------------------------- MODULE TraceBTree -----------------------------
(* Recorded joins of ordered maps, owned or archived, producing (oj, lj, rj, *)
(* ij) and in place (ow, lw, rw, iw), and lookups through the interface.     *)
EXTENDS MapSem, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)
VARIABLE l
Starts == {1 + (s * N) \div 16 : s \in 0..15} \cap 1..N
TraceInit == l \in Starts
TraceNext == l < N /\ (l + 1) \notin Starts /\ l' = l + 1

Exactly(s, S) == Len(s) = Cardinality(S) /\ SetOf(s) = S
Good(obs, calls, M) == /\ Len(obs) = 1
                       /\ Exactly(obs[1][1], calls)
                       /\ RepresentsMap(obs[1][2], M)
Producing(obs, j, M, W, m) == Good(obs, Calls(j, M, W), JoinResult(j, M, W, m))
(* in place, nothing is ever added by a right join: its function only says   *)
(* whether to keep what is there                                             *)
InPlaceResult(j, M, W, m) == IF j = "r" THEN {p \in JoinResult("r", M, W, m) : Has(M, p[1])}
                             ELSE JoinResult(j, M, W, m)
InPlace(obs, j, M, W, m) == Good(obs, Calls(j, M, W), InPlaceResult(j, M, W, m))
Unchanged(obs, M) == Len(obs) = 1 /\ RepresentsMap(obs[1], M)
Gets(obs, ks, M)  == obs = <<[i \in 1..Len(ks) |-> IF Has(M, ks[i]) THEN At(M, ks[i]) ELSE -1]>>
Record(e) == LET M == SetOf(e.a)
                 W == SetOf(e.b)
             IN /\ Producing(e.oj, "o", M, W, e.m) /\ Producing(e.lj, "l", M, W, e.m)
                /\ Producing(e.rj, "r", M, W, e.m) /\ Producing(e.ij, "i", M, W, e.m)
                /\ InPlace(e.ow, "o", M, W, e.m) /\ InPlace(e.lw, "l", M, W, e.m)
                /\ InPlace(e.rw, "r", M, W, e.m) /\ InPlace(e.iw, "i", M, W, e.m)
                /\ Unchanged(e.ao, M) /\ Unchanged(e.bo, W)
                /\ Gets(e.ga, e.q, M) /\ Gets(e.gb, e.q, W)
Ok == Record(Trace[l])
=============================================================================
