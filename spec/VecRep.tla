------------------------------- MODULE VecRep -------------------------------
(* Vector sets as they are stored: an ordered list in a small vector that is *)
(* inline up to N elements, changed by binary search, by the aggregator, by  *)
(* element-wise merging and by in-place reduction. Carried out in step with  *)
(* VecSet (what the sets are) and Storage (where they may live), of which    *)
(* this is a refinement.                                                     *)
EXTENDS SortOps

CONSTANTS Regs, N, KeyMax, Tags, SeqMax
VARIABLES rep,            \* [s: the list, cap: capacity, heap: on the heap?]
          sets, ret,      \* VecSet
          size, big,      \* Storage
          fine            \* the call reported what VecSet says, and Storage allows what it did
vars == <<rep, sets, ret, size, big, fine>>
S == INSTANCE VecSet
St == INSTANCE Storage

(* ---------------------------- the small vector ---------------------------- *)
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 1 THEN 1 ELSE 2 * Pow2((n + 1) \div 2)
Vec(s, cap)   == [s |-> s, cap |-> IF cap <= N THEN N ELSE cap, heap |-> cap > N]
Fresh(s)      == Vec(s, IF Len(s) <= N THEN N ELSE Pow2(Len(s)))
(* the same vector with other contents, after room for need was made *)
With(v, s, need) == IF need <= v.cap THEN [v EXCEPT !.s = s] ELSE Vec(s, Pow2(need))
Shrunk(v)     == IF ~v.heap THEN v ELSE Vec(v.s, Len(v.s))

(* ------------------------------- the lists ------------------------------- *)
(* binary search: <<found, position before which k belongs>> *)
RECURSIVE Search(_, _, _, _)
Search(s, k, lo, hi) ==
    IF lo >= hi THEN <<FALSE, lo>>
    ELSE LET mid == (lo + hi) \div 2
             x == K(s[mid + 1])
         IN IF x = k THEN <<TRUE, mid>>
            ELSE IF x < k THEN Search(s, k, mid + 1, hi) ELSE Search(s, k, lo, mid)
Find(s, k) == Search(s, k, 0, Len(s))
InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
RemoveAt(s, i)    == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
Keeps(o, side) == CASE o = "u" -> TRUE [] o = "i" -> FALSE [] o = "d" -> side = "l" [] o = "x" -> TRUE
RECURSIVE MergeL(_, _, _)
MergeL(o, a, b) ==
    IF a = <<>> THEN IF Keeps(o, "r") THEN b ELSE <<>>
    ELSE IF b = <<>> THEN IF Keeps(o, "l") THEN a ELSE <<>>
    ELSE IF K(a[1]) < K(b[1]) THEN (IF Keeps(o, "l") THEN <<a[1]>> ELSE <<>>) \o MergeL(o, Tail(a), b)
    ELSE IF K(a[1]) > K(b[1]) THEN (IF Keeps(o, "r") THEN <<b[1]>> ELSE <<>>) \o MergeL(o, a, Tail(b))
    ELSE (IF o \in {"u", "i"} THEN <<a[1]>> ELSE <<>>) \o MergeL(o, Tail(a), Tail(b))
RECURSIVE Holding(_, _)
Holding(s, m) == IF s = <<>> THEN <<>>
                 ELSE (IF S!MaskHas(m, K(Head(s))) THEN <<Head(s)>> ELSE <<>>) \o Holding(Tail(s), m)
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : K(a[i]) = K(b[i])
RECURSIVE Before(_, _)      \* lexicographic order of contents
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE IF K(a[1]) # K(b[1]) THEN K(a[1]) < K(b[1]) ELSE Before(Tail(a), Tail(b))

(* ------------------------------- the calls ------------------------------- *)
Built(s) == LET c == Collected(s, "first")
            IN Shrunk(Vec(c.d, Max(Min(Len(s), 16), IF c.peak <= N THEN N ELSE Pow2(c.peak))))
Rep(e) == LET v == rep[e.i]  IN
    CASE e.o = "new"     -> Fresh(<<>>)
      [] e.o = "single"  -> Fresh(<<e.x>>)
      [] e.o = "collect" -> Built(e.xs)
      [] e.o = "fromvec" -> Vec(Dedup(StableSort(e.xs), "first"), Len(e.xs))
      [] e.o = "insert"  -> LET f == Find(v.s, K(e.x)) IN
                            IF f[1] THEN [v EXCEPT !.s[f[2] + 1] = e.x] ELSE With(v, InsertAt(v.s, f[2], e.x), Len(v.s) + 1)
      [] e.o = "remove"  -> LET f == Find(v.s, K(e.x)) IN IF f[1] THEN [v EXCEPT !.s = RemoveAt(v.s, f[2])] ELSE v
      [] e.o = "retain"  -> [v EXCEPT !.s = Holding(v.s, e.x)]
      [] e.o = "extend"  -> LET t == MergeL("u", v.s, Built(e.xs).s) IN With(v, t, Len(t))
      [] e.o = "clone"   -> Fresh(rep[e.j].s)
      [] e.o = "shrink"  -> Shrunk(v)
      [] e.o = "uo"      -> LET t == MergeL("u", v.s, rep[e.j].s) IN With(v, t, Len(t))
      [] e.o = "xo"      -> LET t == MergeL("x", v.s, rep[e.j].s) IN With(v, t, Len(v.s) + Len(rep[e.j].s))
      [] e.o = "io"      -> [v EXCEPT !.s = MergeL("i", v.s, rep[e.j].s)]
      [] e.o = "do"      -> [v EXCEPT !.s = MergeL("d", v.s, rep[e.j].s)]
      [] e.o = "u3"      -> Fresh(MergeL("u", v.s, rep[e.j].s))
      [] e.o = "i3"      -> Fresh(MergeL("i", v.s, rep[e.j].s))
      [] e.o = "d3"      -> Fresh(MergeL("d", v.s, rep[e.j].s))
      [] e.o = "x3"      -> Fresh(MergeL("x", v.s, rep[e.j].s))
      [] OTHER           -> v
Reports(e) == LET s == rep[e.i].s IN
    CASE e.o = "insert" -> <<B(~Find(s, K(e.x))[1])>>
      [] e.o = "remove" -> <<B(Find(s, K(e.x))[1])>>
      [] e.o = "query"  -> [n \in 1..Len(e.xs) |-> B(Find(s, K(e.xs[n]))[1])]
      [] e.o = "relate" -> LET t == rep[e.j].s IN
                           <<B(MergeL("d", s, t) = <<>>), B(MergeL("d", t, s) = <<>>), B(MergeL("i", s, t) = <<>>), B(Same(s, t))>>
      [] OTHER -> <<>>

Ev(o, i, j, k, x, xs) == [o |-> o, i |-> i, j |-> j, k |-> k, x |-> x, xs |-> xs]
Codes == {Code(k, t) : k \in 0..(KeyMax - 1), t \in 0..(Tags - 1)}
Seqs  == UNION {[1..n -> Codes] : n \in 0..SeqMax}
Calls == {Ev(o, i, 0, 0, x, <<>>) : o \in {"insert", "remove", "single"}, i \in Regs, x \in Codes}
         \cup {Ev(o, i, 0, 0, 0, xs) : o \in {"collect", "fromvec", "extend"}, i \in Regs, xs \in Seqs}
         \cup {Ev("retain", i, 0, 0, m, <<>>) : i \in Regs, m \in 0..(2 ^ KeyMax - 1)}
         \cup {Ev(o, i, 0, 0, 0, <<>>) : o \in {"new", "shrink"}, i \in Regs}
         \cup {Ev(o, i, j, 0, 0, <<>>) : o \in {"clone", "uo", "io", "do", "xo", "relate"}, i \in Regs, j \in Regs}
         \cup {Ev(o, i, j, k, 0, <<>>) : o \in {"u3", "i3", "d3", "x3"}, i \in Regs, j \in Regs, k \in Regs}
         \cup {Ev("query", i, 0, 0, 0, xs) : i \in Regs, xs \in {<<Code(k, 0)>> : k \in 0..(KeyMax - 1)}}

Init == /\ rep = [i \in Regs |-> Fresh(<<>>)] /\ S!Init /\ St!Init /\ fine = TRUE
Target(e) == IF e.o \in {"u3", "i3", "d3", "x3"} THEN e.k ELSE e.i
(* what Storage gets to see of the call *)
Seen(e, r) == [o |-> e.o, i |-> e.i, j |-> e.j, k |-> e.k, given |-> Len(e.xs),
               allocs |-> B(r[Target(e)].heap /\ r[Target(e)].cap # rep[Target(e)].cap),
               at |-> [i \in Regs |-> <<Len(r[i].s), B(r[i].heap), r[i].cap>>]]
Call(e) == LET r == [rep EXCEPT ![Target(e)] = Rep(e)] IN
           /\ rep' = r
           /\ S!Do(e)
           /\ St!Do(Seen(e, r), N, "set")
           /\ fine' = (Reports(e) = ret' /\ St!Allowed(Seen(e, r), N, "set"))
Next == \E e \in Calls : Call(e)
Spec == Init /\ [][Next]_vars

Refines  == \A i \in Regs : Represents(rep[i].s, sets[i])                  \* C01 C02 C04
Truthful == fine                                                           \* C01 C03 C29
View     == <<rep, sets, size, big, fine>>
Sound    == \A i \in Regs : /\ Len(rep[i].s) <= rep[i].cap /\ (rep[i].heap <=> rep[i].cap > N)
(* equality and order of what is stored are equality and order of contents (C08) *)
Ordered  == \A i, j \in Regs :
              LET a == rep[i].s  b == rep[j].s IN
              /\ Same(a, b) <=> Keys(sets[i]) = Keys(sets[j])
              /\ Cardinality({x \in {Before(a, b), Before(b, a), Same(a, b)} : x}) = 1
              /\ B(Before(a, b)) + B(Before(b, a)) + B(Same(a, b)) = 1
(* the order is that of the contents: transitive *)
Lists == {xs \in UNION {[1..n -> {Code(k, 0) : k \in 0..3}] : n \in 0..4} : Increasing(xs)}
ASSUME \A a, b, c \in Lists : (Before(a, b) /\ Before(b, c)) => Before(a, c)
=============================================================================
