------------------------------ MODULE RadixAlg ------------------------------
(* The algorithms on radix trees as nodes <<prefix, value or -1, children>>, *)
(* with their case distinctions on the common prefix of two nodes, artificial *)
(* splits, removal of degenerate nodes, child lists merged by first element, *)
(* and iteration with a stack and a growing and shrinking path. Each result  *)
(* must be the canonical tree of what the operation on maps (RadixSem) gives. *)
(* Every canonical tree over Keys is an operand, so what holds for one call  *)
(* holds for every sequence of calls.                                        *)
EXTENDS RadixSem, TLC

CONSTANTS Keys,      \* keys of the maps on both sides
          Masks      \* behaviours of the callbacks (RadixSem)
VARIABLES M, N,      \* the maps
          call,      \* what was called: [o, m, p]
          out,       \* the resulting tree, or the answers
          seen       \* the callbacks' arguments
vars == <<M, N, call, out, seen>>

(* ------------------------------- nodes ------------------------------- *)
Bare(t)     == t[2] = -1 /\ t[3] = <<>>
CP(a, b)    == CHOOSE n \in 0..Len(a) : /\ IsPrefix(SubSeq(a, 1, n), b)
                                        /\ n < Len(a) => ~IsPrefix(SubSeq(a, 1, n + 1), b)
Split(t, n) == <<SubSeq(t[1], 1, n), -1, <<<<Drop(t[1], n), t[2], t[3]>>>>>>
Short(t, n) == IF n < Len(t[1]) THEN <<Drop(t[1], n), t[2], t[3]>> ELSE Assert(FALSE, "nothing left of the prefix")
NotBare(t)  == ~Bare(t)
Unsplit(t)  == LET cs == SelectSeq(t[3], NotBare)
                   u  == IF Len(cs) = 1 /\ t[2] = -1 THEN <<t[1] \o cs[1][1], cs[1][2], cs[1][3]>> ELSE <<t[1], t[2], cs>>
               IN IF Bare(u) THEN Empty ELSE u
ByHead(s, t) == IF s[1][1] < t[1][1] THEN <<s, t>> ELSE <<t, s>>
Keep(t) == IF Bare(t) THEN <<>> ELSE <<t>>

(* ----------------------------- combinations ----------------------------- *)
(* o: "outer", "inner", "left" produce a tree, "outerw", "innerw", "leftw"   *)
(* change the left operand; results are <<tree, arguments of the callbacks>> *)
Ask(o, m, v, w) ==       \* what the callback makes of the two values
    CASE o.f = "mask"  -> IF Declines(m, v, w) THEN -1 ELSE Value(m, v, w)
      [] o.f = "left"  -> v
      [] o.f = "right" -> w
      [] o.f = "never" -> -1
      [] o.f = "minus" -> IF w = None THEN v ELSE -1
BothValues(o, m, v, w) == IF v # -1 /\ w # -1 THEN <<Ask(o, m, v, w), <<<<v, w>>>>>> ELSE <<-1, <<>>>>
ValueOf(o, m, v, w) ==   \* the value of a node whose prefixes are the same
    CASE v # -1 /\ w # -1 -> <<Ask(o, m, v, w), <<<<v, w>>>>>>
      [] v # -1 /\ w = -1 -> (CASE o.k \in {"outer", "outerw", "leftw"} -> <<v, <<>>>>
                                [] o.k \in {"inner", "innerw"} -> <<-1, <<>>>>
                                [] o.k = "left" -> <<Ask(o, m, v, None), <<<<v, None>>>>>>)
      [] v = -1 /\ w # -1 -> IF o.k \in {"outer", "outerw"} THEN <<w, <<>>>> ELSE <<-1, <<>>>>
      [] OTHER -> <<-1, <<>>>>
RECURSIVE LeftNone(_, _, _), LeftNoneAll(_, _, _)
LeftNone(o, m, a) == LET v == IF a[2] = -1 THEN <<-1, <<>>>> ELSE <<Ask(o, m, a[2], None), <<<<a[2], None>>>>>>
                         cs == LeftNoneAll(o, m, a[3])
                     IN <<Unsplit(<<a[1], v[1], cs[1]>>), v[2] \o cs[2]>>
LeftNoneAll(o, m, cs) == IF cs = <<>> THEN <<<<>>, <<>>>>
                         ELSE LET x == LeftNone(o, m, cs[1])  r == LeftNoneAll(o, m, Tail(cs))
                              IN <<<<x[1]>> \o r[1], x[2] \o r[2]>>
RECURSIVE Combine(_, _, _, _), Children(_, _, _, _)
OnlyLeft(o, m, a)  == CASE o.k \in {"outer", "outerw", "leftw"} -> <<<<a>>, <<>>>>
                        [] o.k \in {"inner", "innerw"} -> <<<<>>, <<>>>>
                        [] o.k = "left" -> LET x == LeftNone(o, m, a) IN <<Keep(x[1]), x[2]>>
OnlyRight(o, b) == IF o.k \in {"outer", "outerw"} THEN <<<<b>>, <<>>>> ELSE <<<<>>, <<>>>>
Children(o, m, as, bs) ==       \* two child lists, merged by first element
    IF as = <<>> /\ bs = <<>> THEN <<<<>>, <<>>>>
    ELSE LET l == bs = <<>> \/ (as # <<>> /\ as[1][1][1] <= bs[1][1][1])
             r == as = <<>> \/ (bs # <<>> /\ bs[1][1][1] <= as[1][1][1])
             h == CASE l /\ r -> (LET x == Combine(o, m, as[1], bs[1]) IN <<Keep(x[1]), x[2]>>)
                    [] l      -> OnlyLeft(o, m, as[1])
                    [] OTHER  -> OnlyRight(o, bs[1])
             t == Children(o, m, IF l THEN Tail(as) ELSE as, IF r THEN Tail(bs) ELSE bs)
         IN <<h[1] \o t[1], h[2] \o t[2]>>
Done(p, v, cs) == <<Unsplit(<<p, v[1], cs[1]>>), v[2] \o cs[2]>>
Combine(o, m, a, b) ==
    LET n == CP(a[1], b[1])
        p == SubSeq(a[1], 1, n)
        InPlace == o.k \in {"outerw", "innerw", "leftw"}
    IN IF n = Len(a[1]) /\ n = Len(b[1])
       THEN Done(p, ValueOf(o, m, a[2], b[2]), Children(o, m, a[3], b[3]))
       ELSE IF n = Len(a[1])                        \* a is a prefix of b
       THEN LET v == CASE o.k \in {"outer", "outerw", "leftw"} -> <<a[2], <<>>>>
                       [] o.k \in {"inner", "innerw"} -> <<-1, <<>>>>
                       [] o.k = "left" -> IF a[2] = -1 THEN <<-1, <<>>>> ELSE <<Ask(o, m, a[2], None), <<<<a[2], None>>>>>>
            IN Done(p, v, Children(o, m, a[3], <<Short(b, n)>>))
       ELSE IF n = Len(b[1])                        \* b is a prefix of a
       THEN LET s == IF InPlace THEN Split(a, n) ELSE <<p, -1, <<Short(a, n)>>>>
                v == IF o.k \in {"outer", "outerw"} THEN b[2] ELSE -1
            IN Done(p, <<v, <<>>>>, Children(o, m, s[3], b[3]))
       ELSE CASE o.k = "left"   -> LeftNone(o, m, a)
              [] o.k = "leftw"  -> <<Unsplit(a), <<>>>>
              [] o.k \in {"inner", "innerw"} -> <<Empty, <<>>>>
              [] OTHER -> Done(p, <<-1, <<>>>>, <<ByHead(Short(a, n), Short(b, n)), <<>>>>)

(* ------------------------ removing, retaining prefixes ------------------------ *)
RECURSIVE Cut(_, _, _, _), CutChildren(_, _, _, _)
CutChildren(k, m, as, bs) ==
    IF as = <<>> THEN <<>>
    ELSE IF bs = <<>> \/ as[1][1][1] < bs[1][1][1]
    THEN (IF k = "rmp" THEN <<as[1]>> ELSE <<>>) \o CutChildren(k, m, Tail(as), bs)
    ELSE IF bs[1][1][1] < as[1][1][1] THEN CutChildren(k, m, as, Tail(bs))
    ELSE Keep(Cut(k, m, as[1], bs[1])) \o CutChildren(k, m, Tail(as), Tail(bs))
Cut(k, m, a, b) ==
    LET n    == CP(a[1], b[1])
        root == b[2] # -1 /\ Accepts(m, b[2])
    IN Unsplit(
       IF n = Len(a[1]) /\ n = Len(b[1])
       THEN IF root THEN (IF k = "rmp" THEN <<a[1], -1, <<>>>> ELSE a)
            ELSE <<a[1], IF k = "rmp" THEN a[2] ELSE -1, CutChildren(k, m, a[3], b[3])>>
       ELSE IF n = Len(b[1])
       THEN IF root THEN (IF k = "rmp" THEN <<a[1], -1, <<>>>> ELSE a)
            ELSE LET s == Split(a, n) IN <<s[1], s[2], CutChildren(k, m, s[3], b[3])>>
       ELSE IF n = Len(a[1])
       THEN <<a[1], IF k = "rmp" THEN a[2] ELSE -1, CutChildren(k, m, a[3], <<Short(b, n)>>)>>
       ELSE IF k = "rmp" THEN a ELSE Empty)

(* ------------------------------- relations ------------------------------- *)
RECURSIVE SubsetN(_, _, _, _), Meets(_, _, _, _)
Lone(a, bs) == ~\E j \in 1..Len(bs) : bs[j][1][1] = a[1][1]
SubsetN(l, lp, r, rp) ==
    LET n == CP(lp, rp) IN
    IF n = Len(lp) /\ n = Len(rp)
    THEN /\ l[2] = -1 \/ r[2] # -1
         /\ \A i \in 1..Len(l[3]) : /\ ~Lone(l[3][i], r[3])
                                    /\ \A j \in 1..Len(r[3]) : r[3][j][1][1] = l[3][i][1][1] => SubsetN(l[3][i], l[3][i][1], r[3][j], r[3][j][1])
    ELSE IF n = Len(lp) THEN l[2] = -1 /\ \A i \in 1..Len(l[3]) : SubsetN(l[3][i], l[3][i][1], r, Drop(rp, n))
    ELSE IF n = Len(rp) THEN \E j \in 1..Len(r[3]) : SubsetN(l, Drop(lp, n), r[3][j], r[3][j][1])
    ELSE FALSE
Meets(l, lp, r, rp) ==
    LET n == CP(lp, rp) IN
    IF n = Len(lp) /\ n = Len(rp)
    THEN \/ l[2] # -1 /\ r[2] # -1
         \/ \E i \in 1..Len(l[3]), j \in 1..Len(r[3]) : l[3][i][1][1] = r[3][j][1][1] /\ Meets(l[3][i], l[3][i][1], r[3][j], r[3][j][1])
    ELSE IF n = Len(lp) THEN \E i \in 1..Len(l[3]) : Meets(l[3][i], l[3][i][1], r, Drop(rp, n))
    ELSE IF n = Len(rp) THEN \E j \in 1..Len(r[3]) : Meets(l, Drop(lp, n), r[3][j], r[3][j][1])
    ELSE FALSE
RelationsN(a, b) == LET s == B(SubsetN(a, a[1], b, b[1]))  t == B(SubsetN(b, b[1], a, a[1]))  i == Meets(a, a[1], b, b[1])
                    IN <<s, t, B(~i), B(i)>>

(* ----------------------- lookup, filter, prepend, walks ----------------------- *)
RECURSIVE Find(_, _)    \* <<"found" / "prefix" / "not", the node, how much of its prefix is left>>
Find(t, p) ==
    LET n == CP(t[1], p)  rp == Len(p) - n  rt == Len(t[1]) - n IN
    IF rp = 0 /\ rt = 0 THEN <<"found", t, 0>>
    ELSE IF rp = 0 THEN <<"prefix", t, rt>>
    ELSE IF rt = 0 /\ \E i \in 1..Len(t[3]) : t[3][i][1][1] = p[n + 1]
    THEN Find(t[3][CHOOSE i \in 1..Len(t[3]) : t[3][i][1][1] = p[n + 1]], Drop(p, n))
    ELSE <<"not", t, 0>>
GetN(t, p) == LET f == Find(t, p) IN IF f[1] = "found" THEN f[2][2] ELSE -1
Last(s, n) == Drop(s, Len(s) - n)
Prefixed(p, t) == IF p # <<>> /\ ~Bare(t) THEN <<p \o t[1], t[2], t[3]>> ELSE t
FilterN(t, p) == LET f == Find(t, p) IN
                 CASE f[1] = "found" -> <<p, f[2][2], f[2][3]>>
                   [] f[1] = "prefix" -> Prefixed(p, <<Last(f[2][1], f[3]), f[2][2], f[2][3]>>)
                   [] OTHER -> Empty
(* the stack holds nodes and how often they were looked at; path is the key  *)
(* of the node on top                                                        *)
RECURSIVE Walk(_, _)
Walk(st, path) ==
    IF st = <<>> THEN <<>>
    ELSE LET n == Len(st)  t == st[n][1]  pos == st[n][2]
             up == [st EXCEPT ![n][2] = pos + 1]
         IN IF pos = 0 THEN (IF t[2] # -1 THEN <<<<path, t[2]>>>> ELSE <<>>) \o Walk(up, path)
            ELSE IF pos <= Len(t[3]) THEN LET c == t[3][pos] IN Walk(Append(up, <<c, 0>>), path \o c[1])
            ELSE Walk(SubSeq(st, 1, n - 1), SubSeq(path, 1, IF Len(path) < Len(t[1]) THEN 0 ELSE Len(path) - Len(t[1])))
IterN(t) == Walk(<<<<t, 0>>>>, t[1])
ScanN(t, p) == LET f == Find(t, p) IN
               CASE f[1] = "found" -> Walk(<<<<f[2], 0>>>>, p)
                 [] f[1] = "prefix" -> Walk(<<<<f[2], 0>>>>, p \o Last(f[2][1], f[3]))
                 [] OTHER -> <<>>

(* --------------------------------- calls --------------------------------- *)
Op(k, f) == [k |-> k, f |-> f]
Combinations == {Op(k, "mask") : k \in {"outer", "outerw", "inner", "innerw", "left", "leftw"}}
Named == {Op("outer", "left"), Op("outerw", "left"), Op("inner", "left"), Op("innerw", "left"),
          Op("left", "minus"), Op("leftw", "never")}
AllMaps(v(_)) == {{<<k, v(k)>> : k \in D} : D \in SUBSET Keys}
RECURSIVE Num(_)
Num(k) == IF k = <<>> THEN 0 ELSE (3 * Num(SubSeq(k, 1, Len(k) - 1))) + k[Len(k)] + 1
LeftVal(k)  == Num(k) % 8
RightVal(k) == (Num(k) \div 2) % 8
None0 == [o |-> Op("none", ""), m |-> 0, p |-> <<>>]
Init == M \in AllMaps(LeftVal) /\ N \in AllMaps(RightVal) /\ call = None0 /\ out = Empty /\ seen = <<>>
A == TreeOf(M)
Right == TreeOf(N)
Do(o, m, p, r, s) == call' = [o |-> o, m |-> m, p |-> p] /\ out' = r /\ seen' = s /\ UNCHANGED <<M, N>>
DoCombine(o, m) == LET r == Combine(o, m, A, Right) IN Do(o, m, <<>>, r[1], r[2])
Probes == Keys \cup {<<2>>, <<0, 2>>, <<0, 0, 0, 0>>}
One  == N = {}       \* operations with one operand are done once
Next == /\ call = None0
        /\ \/ \E o \in Combinations, m \in Masks : DoCombine(o, m)
           \/ \E o \in Named : DoCombine(o, 0)
           \/ \E k \in {"rmp", "rtp"}, m \in Masks : Do(Op(k, ""), m, <<>>, Cut(k, m, A, Right), <<>>)
           \/ Do(Op("rel", ""), 0, <<>>, RelationsN(A, Right), <<>>)
           \/ One /\ \E p \in Probes : \/ LET r == Combine(Op("outerw", "right"), 0, A, <<p, 5, <<>>>>) IN Do(Op("insert", ""), 5, p, r[1], <<>>)
                                       \/ Do(Op("filter", ""), 0, p, FilterN(A, p), <<>>)
                                       \/ Do(Op("prepend", ""), 0, p, Prefixed(p, A), <<>>)
                                       \/ Do(Op("scan", ""), 0, p, ScanN(A, p), <<>>)
                                       \/ Do(Op("get", ""), 0, p, GetN(A, p), <<>>)
           \/ One /\ Do(Op("iter", ""), 0, <<>>, IterN(A), <<>>)
Spec == Init /\ [][Next]_vars

Operands == IsTreeOf(A, M) /\ IsTreeOf(Right, N)
Result ==
    LET m == call.m IN
    CASE call.o.k \in {"rmp", "rtp"} -> IsTreeOf(out, IF call.o.k = "rmp" THEN RemovePrefix(M, N, m) ELSE RetainPrefix(M, N, m))
      [] call.o.k = "rel"     -> out = Relations(M, N)
      [] call.o.k = "insert"  -> IsTreeOf(out, Put(M, call.p, m))
      [] call.o.k = "filter"  -> IsTreeOf(out, Filter(M, call.p))
      [] call.o.k = "prepend" -> IsTreeOf(out, Prepend(M, call.p))
      [] call.o.k = "scan"    -> Lists(out, Filter(M, call.p))
      [] call.o.k = "get"     -> out = Get(M, call.p)
      [] call.o.k = "iter"    -> Lists(out, M)
      [] call.o.f = "mask"    ->
           IsTreeOf(out, CASE call.o.k \in {"outer", "outerw"} -> Outer(M, N, m)
                           [] call.o.k \in {"inner", "innerw"} -> Inner(M, N, m)
                           [] call.o.k = "left" -> Left(M, N, m)
                           [] OTHER -> LeftWith(M, N, m))
      [] call.o.k \in {"outer", "outerw"} -> IsTreeOf(out, Union(M, N))
      [] call.o.k \in {"inner", "innerw"} -> IsTreeOf(out, Inter(M, N))
      [] OTHER -> IsTreeOf(out, Diff(M, N))
(* the callbacks are called once for each key they are to decide on *)
Calls == CASE call.o.f \in {"mask", "left", "minus", "never"} -> CallsAre(seen, M, N, IF call.o.k = "left" THEN Dom(M) ELSE Both(M, N))
           [] OTHER -> TRUE
ResultOk == call = None0 \/ Result
CallsOk  == call = None0 \/ Calls
=============================================================================
