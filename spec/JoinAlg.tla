------------------------------ MODULE JoinAlg -------------------------------
(* Vector maps as increasing lists of pairs and tree maps as maps with       *)
(* lookups: the joins by merging two lists, taking runs from one side at a   *)
(* time, and by looking up each key of one side in the other, in place or    *)
(* not; insertion, extension, mutation, retaining and value mapping on       *)
(* lists. Each result must be the list of what VecMap says, and the          *)
(* callbacks must be called for just the keys the join covers. All maps over *)
(* 0..KeyMax-1 are operands, so what holds for one call holds for histories. *)
EXTENDS MapSem

CONSTANTS KeyMax, Vals, SeqMax, Masks
VARIABLES maps, ret,        \* VecMap, with two registers
          rep,              \* the lists
          did, calls,       \* the call made, the callback's arguments
          given             \* the operands
vars == <<maps, ret, rep, did, calls, given>>
V == INSTANCE VecMap WITH Regs <- {1, 2}

(* ---------------------------- merging two lists ---------------------------- *)
Run(f(_), s) == CHOOSE n \in 0..Len(s) : (\A i \in 1..n : f(s[i])) /\ (n < Len(s) => ~f(s[n + 1]))
Front(s, n) == SubSeq(s, 1, n)
Rest(s, n)  == SubSeq(s, n + 1, Len(s))
Out(m, c) == IF Declines(m, c[2], c[1]) THEN <<>> ELSE <<<<c[1], Value(c[2], c[1], Arg(c[3]), Arg(c[4]))>>>>
RECURSIVE Outs(_, _)
Outs(m, cs) == IF cs = <<>> THEN <<>> ELSE Out(m, cs[1]) \o Outs(m, Tail(cs))
LeftCalls(s)  == [i \in 1..Len(s) |-> <<s[i][1], 0, s[i][2], -1>>]
RightCalls(s) == [i \in 1..Len(s) |-> <<s[i][1], 1, -1, s[i][2]>>]
RECURSIVE MergeCalls(_, _, _)     \* the callback's arguments, in order
MergeCalls(j, a, b) ==
    IF a = <<>> THEN IF j \in {"o", "r"} THEN RightCalls(b) ELSE <<>>
    ELSE IF b = <<>> THEN IF j \in {"o", "l"} THEN LeftCalls(a) ELSE <<>>
    ELSE IF a[1][1] = b[1][1] THEN <<<<a[1][1], 2, a[1][2], b[1][2]>>>> \o MergeCalls(j, Tail(a), Tail(b))
    ELSE IF a[1][1] < b[1][1]
    THEN LET Less(p) == p[1] < b[1][1]  n == Run(Less, a)
         IN (IF j \in {"o", "l"} THEN LeftCalls(Front(a, n)) ELSE <<>>) \o MergeCalls(j, Rest(a, n), b)
    ELSE LET Less(p) == p[1] < a[1][1]  n == Run(Less, b)
         IN (IF j \in {"o", "r"} THEN RightCalls(Front(b, n)) ELSE <<>>) \o MergeCalls(j, a, Rest(b, n))

(* ------------------------ looking up, as tree maps do ------------------------ *)
KeyAt(s, k) == CHOOSE i \in 1..Len(s) : s[i][1] = k
HasKey(s, k) == \E i \in 1..Len(s) : s[i][1] = k
GetOr(s, k) == IF HasKey(s, k) THEN s[KeyAt(s, k)][2] ELSE -1
Without1(s, k) == SelectSeq(s, LAMBDA p : p[1] # k)
PutAt(s, k, v) == IF HasKey(s, k) THEN [s EXCEPT ![KeyAt(s, k)] = <<k, v>>]
                  ELSE SelectSeq(s, LAMBDA p : p[1] < k) \o <<<<k, v>>>> \o SelectSeq(s, LAMBDA p : p[1] > k)
CallFor(a, b, k) == <<k, IF ~HasKey(b, k) THEN 0 ELSE IF ~HasKey(a, k) THEN 1 ELSE 2, GetOr(a, k), GetOr(b, k)>>
CallsFor(a, b, s) == [i \in 1..Len(s) |-> CallFor(a, b, s[i][1])]
LookupCalls(j, a, b) ==       \* not in place
    CASE j = "o" -> CallsFor(a, b, a) \o CallsFor(a, b, SelectSeq(b, LAMBDA p : ~HasKey(a, p[1])))
      [] j = "l" -> CallsFor(a, b, a)
      [] j = "r" -> CallsFor(a, b, b)
      [] j = "i" -> CallsFor(a, b, SelectSeq(b, LAMBDA p : HasKey(a, p[1])))
RECURSIVE PutAll(_, _)
PutAll(s, ps) == IF ps = <<>> THEN s ELSE PutAll(PutAt(s, ps[1][1], ps[1][2]), Tail(ps))
(* in place: first what is nowhere else is dropped or first the other side's keys are visited *)
RECURSIVE Visit(_, _, _, _)   \* <<list, calls>>: each key of b is looked up in s, and changed, removed or added
Visit(s, a, bs, m) ==
    IF bs = <<>> THEN <<s, <<>>>>
    ELSE LET c == <<bs[1][1], IF HasKey(s, bs[1][1]) THEN 2 ELSE 1, GetOr(s, bs[1][1]), bs[1][2]>>
             t == IF Out(m, c) = <<>> THEN Without1(s, c[1]) ELSE PutAt(s, c[1], Out(m, c)[1][2])
             r == Visit(t, a, Tail(bs), m)
         IN <<r[1], <<c>> \o r[2]>>
RECURSIVE Keep(_, _, _)       \* the callback decides on what is on the left, where only(k) holds
Keep(s, b, m) == IF s = <<>> THEN <<<<>>, <<>>>>
                 ELSE LET c == CallFor(s, b, s[1][1])  r == Keep(Tail(s), b, m)
                      IN <<Out(m, c) \o r[1], <<c>> \o r[2]>>
KeepLone(s, b, m) == LET r == Keep(SelectSeq(s, LAMBDA p : ~HasKey(b, p[1])), b, m) IN r
InPlace(j, a, b, m) ==
    CASE j = "l" -> Keep(a, b, m)
      [] j = "i" -> Keep(SelectSeq(a, LAMBDA p : HasKey(b, p[1])), b, m)
      [] j = "o" -> (* what the left has alone is decided on after the keys of the right were visited *)
                    LET v == Visit(a, a, b, m)
                        k == KeepLone(v[1], b, m)
                    IN <<PutAll(SelectSeq(v[1], LAMBDA p : HasKey(b, p[1])), k[1]), v[2] \o k[2]>>

(* ---------------------------------- calls ---------------------------------- *)
Lists(vs) == {s \in UNION {[1..n -> (0..(KeyMax - 1)) \X vs] : n \in 0..KeyMax} : \A i \in 1..(Len(s) - 1) : s[i][1] < s[i + 1][1]}
Seqs == UNION {[1..n -> (0..(KeyMax - 1)) \X {0, 1}] : n \in 1..SeqMax}
MapOf(s) == {s[i] : i \in 1..Len(s)}
Ev(o, i, j, k, m, ps, xs) == [o |-> o, i |-> i, j |-> j, k |-> k, m |-> m, ps |-> ps, xs |-> xs]
None == Ev("none", 0, 0, 0, 0, <<>>, <<>>)
Init == /\ rep \in [{1, 2} -> Lists(Vals)] /\ maps = [i \in {1, 2} |-> MapOf(rep[i])]
        /\ ret = <<>> /\ did = None /\ calls = <<>> /\ given = maps
Collected(ps) == PutAll(<<>>, ps)
Merged(a, b) == PutAll(a, b)
Combined(a, b, m) == LET cs == MergeCalls("o", a, b)
                     IN [i \in 1..Len(cs) |-> <<cs[i][1], CASE cs[i][2] = 0 -> cs[i][3] [] cs[i][2] = 1 -> cs[i][4]
                                                            [] OTHER -> CombineValue(m, cs[i][3], cs[i][4])>>]
To(i, s, cs) == rep' = [rep EXCEPT ![i] = s] /\ calls' = cs
Act(e, i, s, cs) == V!Do(e) /\ To(i, s, cs) /\ did' = e /\ UNCHANGED given
Jn(o) == CASE o \in {"oj", "ow"} -> "o" [] o \in {"lj", "lw"} -> "l" [] o \in {"rj", "rw"} -> "r" [] OTHER -> "i"
Next == /\ did = None
        /\ \/ \E o \in {"oj", "lj", "rj", "ij", "ow", "lw", "rw", "iw"}, m \in Masks :
                LET cs == MergeCalls(Jn(o), rep[1], rep[2]) IN Act(Ev(o, 1, 2, 1, m, <<>>, <<>>), 1, Outs(m, cs), cs)
           \/ \E o \in {"oj", "lj", "rj", "ij"}, m \in Masks :
                LET cs == LookupCalls(Jn(o), rep[1], rep[2]) IN Act(Ev(o, 1, 2, 1, m, <<>>, <<>>), 1, PutAll(<<>>, Outs(m, cs)), cs)
           \/ \E o \in {"lw", "iw", "ow"}, m \in Masks :
                LET r == InPlace(Jn(o), rep[1], rep[2], m) IN Act(Ev(o, 1, 2, 1, m, <<>>, <<>>), 1, r[1], r[2])
           \/ \E m \in Masks :
                LET r == Visit(SelectSeq(rep[1], LAMBDA p : HasKey(rep[2], p[1])), rep[1], rep[2], m)
                IN Act(Ev("rw", 1, 2, 1, m, <<>>, <<>>), 1, r[1], r[2])
           \/ \E m \in Masks : Act(Ev("combine", 1, 2, 1, m, <<>>, <<>>), 1, Combined(rep[1], rep[2], m), <<>>)
           \/ Act(Ev("merge", 1, 2, 1, 0, <<>>, <<>>), 1, Merged(rep[1], rep[2]), <<>>)
           \/ rep[2] = <<>> /\
              (\/ \E ps \in Seqs : \/ Act(Ev("collect", 1, 0, 0, 0, ps, <<>>), 1, Collected(ps), <<>>)
                                   \/ Act(Ev("extend", 1, 0, 0, 0, ps, <<>>), 1, Merged(rep[1], Collected(ps)), <<>>)
               \/ \E k \in 0..(KeyMax - 1), v \in {0, 1} :
                    \/ Act(Ev("insert", 1, 0, 0, 0, <<<<k, v>>>>, <<>>), 1, PutAt(rep[1], k, v), <<>>)
                    \/ Act(Ev("mutate", 1, 0, 0, 0, <<<<k, v>>>>, <<>>), 1, IF HasKey(rep[1], k) THEN PutAt(rep[1], k, v) ELSE rep[1], <<>>)
               \/ \E m \in 0..31 : Act(Ev("retain", 1, 0, 0, m, <<>>, <<>>), 1,
                                        SelectSeq(rep[1], LAMBDA p : Bit(m, p[1] % 4) /\ (p[2] % 3 # 0 \/ Bit(m, 4))), <<>>)
               \/ \E m \in {1, 7} : Act(Ev("mapvalues", 1, 0, 1, m, <<>>, <<>>), 1,
                                         [i \in 1..Len(rep[1]) |-> <<rep[1][i][1], MapValue(m, rep[1][i][2])>>], <<>>)
               \/ Act(Ev("query", 1, 0, 0, 0, <<>>, [k \in 1..KeyMax |-> k - 1]), 1, rep[1], <<>>))
Spec == Init /\ [][Next]_vars

Refines == \A i \in {1, 2} : RepresentsMap(rep[i], maps[i])
Joined == did.o \in {"oj", "lj", "rj", "ij", "ow", "lw", "rw", "iw"}
(* for each key covered there is one call, with what each side has *)
CalledRight == Joined => LET C == Calls(Jn(did.o), given[1], given[2])
                         IN SetOf(calls) = C /\ Len(calls) = Cardinality(C)
Truthful == did.o = "query" => ret = [k \in 1..KeyMax |-> GetOr(rep[1], k - 1)]
=============================================================================
