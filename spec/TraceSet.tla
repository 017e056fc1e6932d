------------------------------ MODULE TraceSet ------------------------------
(* Recorded histories of real vector sets are behaviours of VecSet: after    *)
(* every call, in every variant that ran it (element types, inline           *)
(* capacities), the reported result and the contents of all sets are those   *)
(* of the specification.                                                     *)
EXTENDS VecSet, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, ok
tvars == <<sets, ret, l, ok>>

TraceInit == /\ l \in {i \in 1..Len(Trace) : Trace[i].o = "reset"}
             /\ Init /\ ok = TRUE

(* e.all: the distinct observations [contents of every set]; e.m2: the        *)
(* distinct [len, is_empty, is_empty of the trait, as_ref().len()] of every set; e.r: the distinct results          *)
Observed(e, S, r) ==
    /\ Len(e.all) = 1 /\ Len(e.m2) = 1 /\ Len(e.r) = 1
    /\ \A i \in Regs : /\ Represents(e.all[1][i], S[i])
                       /\ e.m2[1][i][1] = Cardinality(S[i])
                       /\ e.m2[1][i][2] = B(S[i] = {})
                       /\ e.m2[1][i][3] = B(S[i] = {})
                       /\ e.m2[1][i][4] = Cardinality(S[i])
    /\ e.r[1] = r

TraceNext == /\ l < Len(Trace)
             /\ ok
             /\ Trace[l+1].o # "reset"
             /\ l' = l + 1
             /\ Do(Trace[l+1])
             /\ ok' = Observed(Trace[l+1], sets', ret')

Ok == ok
=============================================================================
