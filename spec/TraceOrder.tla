----------------------------- MODULE TraceOrder -----------------------------
(* Recorded comparisons of two collections with known contents: equality,    *)
(* order and hashing depend on the contents only.                            *)
EXTENDS TotalSem, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)
VARIABLE l
Starts == {1 + (s * N) \div 16 : s \in 0..15} \cap 1..N
TraceInit == l \in Starts
TraceNext == l < N /\ (l + 1) \notin Starts /\ l' = l + 1

Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
CmpEntry(p, q) == IF p[1] = q[1] THEN Sgn(p[2], q[2]) ELSE Sgn(p[1], q[1])
(* lexicographic, a proper prefix first *)
Lex(C(_, _), s, t) ==
    LET n  == Min(Len(s), Len(t))
        ds == {i \in 1..n : C(s[i], t[i]) # 0}
    IN IF ds = {} THEN Sgn(Len(s), Len(t))
       ELSE LET i == CHOOSE x \in ds : \A y \in ds : x <= y IN C(s[i], t[i])
(* values that are sets of two, ordered by inclusion: 7 where neither         *)
Bits(v) == {n \in {1, 2} : (v \div n) % 2 = 1}
Incl(v, w) == IF v = w THEN 0 ELSE IF Bits(v) \subseteq Bits(w) THEN -1 ELSE IF Bits(w) \subseteq Bits(v) THEN 1 ELSE 7
InclEntry(p, q) == IF p[1] = q[1] THEN Incl(p[2], q[2]) ELSE Sgn(p[1], q[1])
CmpElem(x, y) == Sgn(K(x), K(y))
Stored(s, d) == SelectSeq(s, LAMBDA p : p[2] # d)

Equal(e) == CASE e.t = "set"  -> Lex(CmpElem, e.a, e.b) = 0
              [] e.t = "tset" -> Lex(CmpElem, e.a, e.b) = 0 /\ e.na = e.nb
              [] e.t = "map"  -> e.a = e.b
              [] e.t = "tmap" -> Stored(e.a, e.da) = Stored(e.b, e.db) /\ e.da = e.db
Cmp(e)   == CASE e.t = "set"  -> Lex(CmpElem, e.a, e.b)
              [] e.t = "map"  -> Lex(CmpEntry, e.a, e.b)
Record(e) == /\ e.eq = <<B(Equal(e))>>
             /\ e.cl = <<1>>
             /\ Equal(e) => e.hash = <<1>>
             /\ e.t \in {"set", "map"} => e.cmp = <<Cmp(e)>>
             /\ e.t = "map" => e.pcmp = <<Lex(InclEntry, e.a, e.b)>>
             /\ e.t = "tmap" => /\ Len(e.pcmp) = 1 /\ e.pcmp[1] \in {-1, 0, 1, 7}
                                /\ (e.pcmp[1] = 0) = Equal(e)
             /\ e.t = "tmap" => /\ Len(e.cmp) = 1 /\ e.cmp[1] \in {-1, 0, 1}
                                /\ (e.cmp[1] = 0) = Equal(e)
Ok == Record(Trace[l])
=============================================================================
