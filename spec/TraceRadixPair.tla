--------------------------- MODULE TraceRadixPair ---------------------------
(* Recorded single operations on pairs of radix trees of all flavours, WHAT  *)
(* is "combine", "relations" or "prefixes". Each field lists the distinct    *)
(* outcomes over all flavours and forms.                                     *)
EXTENDS RadixSem, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
What  == IOEnv.WHAT
N     == Len(Trace)
VARIABLE l
Starts == {1 + (s * N) \div 16 : s \in 0..15} \cap 1..N
TraceInit == l \in Starts
TraceNext == l < N /\ (l + 1) \notin Starts /\ l' = l + 1

Is(obs, M) == Len(obs) = 1 /\ IsTreeOf(Tree(obs[1]), M)
Did(obs, M, A, C, ks) == Len(obs) = 1 /\ CallsAre(obs[1][1], A, C, ks) /\ IsTreeOf(Tree(obs[1][2]), M)
Combine(e, A, C) ==
    /\ Did(e.outer, Outer(A, C, e.m), A, C, Both(A, C))
    /\ Did(e.inner, Inner(A, C, e.m), A, C, Both(A, C))
    /\ Did(e.left, Left(A, C, e.m), A, C, Dom(A))
    /\ Did(e.leftw, LeftWith(A, C, e.m), A, C, Both(A, C))
    /\ Is(e.union, Union(A, C)) /\ Is(e.inter, Inter(A, C)) /\ Is(e.diff, Diff(A, C))
Rel(e, A, C) ==
    /\ e.rel = <<Relations(A, C)>>
    /\ e.self = <<Relations(C, C)>>
Prefixes(e, A, C) ==
    /\ Is(e.filter, Filter(A, e.p))
    /\ Is(e.prepend, Prepend(A, e.p))
    /\ Len(e.scan) = 1 /\ Lists(e.scan[1], Filter(A, e.p))
    (* a copy without what all keys begin with: asked for n up to that length *)
    /\ Len(e.short) = 1 /\ \A i \in 1..Len(e.short[1]) : IsTreeOf(Tree(e.short[1][i][2]), Shorten(A, e.short[1][i][1]))
    /\ (A # {} => Len(e.short[1]) = Cardinality({0, CommonLen(A) \div 2, CommonLen(A) - 1} \cap 0..(CommonLen(A) - 1)))
    /\ Is(e.rm, RemovePrefix(A, C, e.m))
    /\ Is(e.rt, RetainPrefix(A, C, e.m))
Record(e) == LET A == SetOf(e.a)
                 C == SetOf(e.b)
             IN /\ Is(e.ao, A) /\ Is(e.bo, C)
                /\ CASE What = "combine"   -> Combine(e, A, C)
                     [] What = "relations" -> Rel(e, A, C)
                     [] What = "prefixes"  -> Prefixes(e, A, C)
Ok == Record(Trace[l])
=============================================================================
