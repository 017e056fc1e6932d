--------------------------- MODULE TraceTotalPair ---------------------------
(* Recorded single calls on pairs of sets with negation (WHAT = "setop",     *)
(* "setrel") and of total maps (WHAT = "map"), and comparisons of lists of   *)
(* total maps (records with a field "ord").                                  *)
EXTENDS TotalSem, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
What  == IOEnv.WHAT
N     == Len(Trace)
VARIABLE l
Starts == {1 + (s * N) \div 16 : s \in 0..15} \cap 1..N
TraceInit == l \in Starts
TraceNext == l < N /\ (l + 1) \notin Starts /\ l' = l + 1

(* a recorded operand: keys and whether negated *)
Den(n, ks, neg) == IF neg = 1 THEN TNot(n, SetOf(ks)) ELSE SetOf(ks)
All(n, obs, S)  == Len(obs) = 1 /\ Members(n, S, obs[1])
SetPair(e) == LET A == Den(e.n, e.a, e.na)
                  C == Den(e.n, e.b, e.nb)
              IN /\ \A o \in {"u", "i", "d", "x"} : All(e.n, e[o], TSetOp(o, A, C))
                 /\ All(e.n, e.no, TNot(e.n, A))
                 /\ All(e.n, e.ao, A) /\ All(e.n, e.bo, C)
                 /\ e.em = <<B(A = {})>> /\ e.al = <<B(A = TAll(e.n))>>
RelPair(e) == LET A == Den(e.n, e.a, e.na)
                  C == Den(e.n, e.b, e.nb)
              IN /\ e.sub = <<B(A \subseteq C)>> /\ e.sup = <<B(C \subseteq A)>>
                 /\ e.dis = <<B(A \cap C = {})>> /\ e.eq = <<B(A = C)>>
                 /\ All(e.n, e.ao, A) /\ All(e.n, e.bo, C)

Good(obs, f) == /\ Len(obs) = 1 /\ RepresentsMap(obs[1][1], Entries(f)) /\ Values(f, obs[1][2])
MapPair(e) == LET f == FromMap(e.n, SetOf(e.a), e.da)
                  g == FromMap(e.n, SetOf(e.b), e.db)
              IN /\ \A o \in {"add", "sub", "mul", "div", "sup", "inf", "combine"} : Good(e[o], TMapOp(o, f, g, e.m))
                 /\ Good(e.neg, [k \in 0..e.n |-> Neg(f[k])])
                 /\ Good(e.mv, [k \in 0..e.n |-> MapValue(e.m, f[k])])
                 /\ e.zo = <<<<B(f = Const(e.n, 0)), B(f = Const(e.n, 1))>>>>
                 /\ Good(e.c0, Const(e.n, 0)) /\ Good(e.c1, Const(e.n, 1))
                 /\ Good(e.cl, Const(e.n, 0)) /\ Good(e.ch, Const(e.n, 96))
                 /\ Good(e.ao, f) /\ Good(e.bo, g)
                 /\ e.eq = <<B(f = g)>>

(* e.fs: a list of maps; e.ord[i][j]: -1, 0 or 1 (9: the ways to compare disagree) *)
Order(e) == LET c == Len(e.fs)
                F == [i \in 1..c |-> FromMap(e.n, SetOf(e.fs[i][1]), e.fs[i][2])]
            IN \A i, j \in 1..c :
                  /\ e.ord[i][j] \in {-1, 0, 1}
                  /\ e.ord[i][j] = -e.ord[j][i]
                  /\ (e.ord[i][j] = 0) = (F[i] = F[j])
                  /\ \A k \in 1..c : (e.ord[i][j] <= 0 /\ e.ord[j][k] <= 0) => e.ord[i][k] <= 0

Ok == LET e == Trace[l] IN
      CASE What = "setop"  -> SetPair(e)
        [] What = "setrel" -> RelPair(e)
        [] What = "map"    -> IF "ord" \in DOMAIN e THEN Order(e) ELSE MapPair(e)
=============================================================================
