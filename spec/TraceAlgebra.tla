---------------------------- MODULE TraceAlgebra ----------------------------
(* Recorded single calls on pairs of vector sets: every form of every        *)
(* operation gave what the specification prescribes.                         *)
EXTENDS SetSem, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
What  == IOEnv.WHAT            \* "algebra" or "relations"
N     == Len(Trace)

VARIABLE l
Starts == {1 + (s * N) \div 16 : s \in 0..15} \cap 1..N
TraceInit == l \in Starts
TraceNext == l < N /\ (l + 1) \notin Starts /\ l' = l + 1

All(obs, S) == Len(obs) = 1 /\ Represents(obs[1], S)

Algebra(e) == LET A == SetOf(e.a)
                  C == SetOf(e.b)
              IN /\ All(e.u, Union(A, C))
                 /\ All(e.i, Inter(A, C))
                 /\ All(e.d, Diff(A, C))
                 /\ All(e.x, Xor(A, C))
                 /\ All(e.ao, A) /\ All(e.bo, C)      \* operands afterwards

Relations(e) == LET A == SetOf(e.a)
                    C == SetOf(e.b)
                IN /\ e.sub = <<B(Subset(A, C))>>
                   /\ e.sup = <<B(Subset(C, A))>>
                   /\ e.dis = <<B(Disjoint(A, C))>>
                   /\ All(e.ao, A) /\ All(e.bo, C)

Ok == IF What = "algebra" THEN Algebra(Trace[l]) ELSE Relations(Trace[l])
=============================================================================
