------------------------------ MODULE Archive -------------------------------
(* Archived trees with shared child lists as positions in memory: nodes, and *)
(* headers of lists that give a range of nodes. Writing puts child lists     *)
(* before the nodes that refer to them, and a shared list only once.         *)
(* Validation goes through the nodes from the root, checks a shared list     *)
(* only once (it counts as checked from the moment that begins), and lets    *)
(* only such memory pass that unfolds to a finite tree in canonical order.   *)
(* A lookup by halving is right exactly on what is ordered.                  *)
EXTENDS RadixSem, TLC

CONSTANTS Size,       \* positions of arbitrary memory
          KeyCount, Depth
VARIABLES mem, checked, result, written, tree
vars == <<mem, checked, result, written, tree>>

Null == 0
NodeAt(k, kid) == [kind |-> "node", key |-> k, kid |-> kid, from |-> 0, n |-> 0]
ListAt(from, n) == [kind |-> "list", key |-> 0, kid |-> 0, from |-> from, n |-> n]
(* arbitrary memory; the root is the node at the end *)
Cells(L) == {NodeAt(k, kid) : k \in 0..KeyCount, kid \in 1..L} \cup {ListAt(f, n) : f \in 1..L, n \in 0..2}
Memories == {m \in [1..Size -> Cells(Size)] : m[Size].kind = "node" /\ m[Size].key = 1}

(* ------------------------------ validation ------------------------------ *)
(* <<accepted so far, lists that count as checked>>; key 0 is an empty prefix *)
InOrder(m, h) == LET l == m[h] IN
    /\ \A i \in 1..l.n : m[l.from + i - 1].key # 0
    /\ \A i \in 1..(l.n - 1) : m[l.from + i - 1].key < m[l.from + i].key
RECURSIVE CheckNode(_, _, _), CheckList(_, _, _), CheckNodes(_, _, _, _)
CheckNode(m, p, reg) ==
    IF m[p].kind # "node" THEN <<FALSE, reg>>
    ELSE LET r == CheckList(m, m[p].kid, reg)
         IN <<r[1] /\ m[p].kid < p /\ InOrder(m, m[p].kid), r[2]>>
CheckList(m, h, reg) ==
    IF h \in reg THEN <<TRUE, reg>>
    ELSE IF m[h].kind # "list" \/ m[h].from + m[h].n > h THEN <<FALSE, reg>>      \* the nodes lie before the header
    ELSE CheckNodes(m, h, 1, reg \cup {h})
CheckNodes(m, h, i, reg) ==
    IF i > m[h].n THEN <<TRUE, reg>>
    ELSE LET r == CheckNode(m, m[h].from + i - 1, reg)
         IN IF r[1] THEN CheckNodes(m, h, i + 1, r[2]) ELSE r
Accepts0(m) == CheckNode(m, Len(m), {})[1]

(* what can be reached, and the tree it unfolds to: <<key, children>> *)
Next1(m, p) == LET l == m[m[p].kid] IN {l.from + i - 1 : i \in 1..l.n}
RECURSIVE Within(_, _, _)       \* no path from p is longer than d
Within(m, p, d) == m[p].kind = "node" /\ d > 0 /\ m[m[p].kid].kind = "list" /\ \A q \in Next1(m, p) : Within(m, q, d - 1)
RECURSIVE Unfold(_, _)
Unfold(m, p) == LET l == m[m[p].kid] IN <<m[p].key, [i \in 1..l.n |-> Unfold(m, l.from + i - 1)]>>
RECURSIVE OrderedTree(_)
OrderedTree(t) == /\ \A i \in 1..Len(t[2]) : t[2][i][1] # 0 /\ OrderedTree(t[2][i])
                  /\ \A i \in 1..(Len(t[2]) - 1) : t[2][i][1] < t[2][i+1][1]

(* -------------------------------- writing -------------------------------- *)
(* trees with keys 1..KeyCount, up to a depth; equal lists are one shared list *)
RECURSIVE TreesOf(_, _)
Children(S) == {<<>>} \cup {<<s>> : s \in S} \cup {<<s, t>> : <<s, t>> \in {x \in S \X S : x[1][1] < x[2][1]}}
TreesOf(k, d) == IF d = 0 THEN {<<k, <<>>>>}
                 ELSE LET S == UNION {TreesOf(j, d - 1) : j \in 1..KeyCount} IN {<<k, cs>> : cs \in Children(S)}
(* <<memory, where each list was put>> *)
RECURSIVE WriteList(_, _, _), WriteEach(_, _, _, _)
WriteList(cs, m, at) ==
    IF cs \in DOMAIN at THEN <<m, at>>
    ELSE LET r  == WriteEach(cs, 1, m, at)
             m1 == r[1] \o [i \in 1..Len(cs) |-> NodeAt(cs[i][1], r[2][cs[i][2]])]
             m2 == Append(m1, ListAt(Len(r[1]) + 1, Len(cs)))
         IN <<m2, [x \in DOMAIN r[2] \cup {cs} |-> IF x = cs THEN Len(m2) ELSE r[2][x]]>>
WriteEach(cs, i, m, at) == IF i > Len(cs) THEN <<m, at>>
                           ELSE LET r == WriteList(cs[i][2], m, at) IN WriteEach(cs, i + 1, r[1], r[2])
Write(t) == LET r == WriteList(t[2], <<>>, <<>>) IN Append(r[1], NodeAt(t[1], r[2][t[2]]))

(* ------------------------------- behaviours ------------------------------- *)
Init == /\ \/ mem \in Memories /\ written = FALSE /\ tree = <<>>
           \/ \E t \in TreesOf(1, Depth) : mem = Write(t) /\ written = TRUE /\ tree = t
        /\ checked = FALSE /\ result = FALSE
Validate == ~checked /\ checked' = TRUE /\ result' = Accepts0(mem) /\ UNCHANGED <<mem, written, tree>>
Next == Validate
Spec == Init /\ [][Next]_vars

Sound    == (checked /\ result) => Within(mem, Len(mem), Len(mem)) /\ OrderedTree(Unfold(mem, Len(mem)))
Complete == (checked /\ written) => result /\ Unfold(mem, Len(mem)) = tree
(* a list is written once *)
Once     == written => \A p, q \in 1..Len(mem) : (p # q /\ mem[p].kind = "list" /\ mem[q].kind = "list") =>
               LET Kids(h) == [i \in 1..mem[h].n |-> <<mem[mem[h].from + i - 1].key, mem[mem[h].from + i - 1].kid>>] IN Kids(p) # Kids(q)

(* lookup by halving in a list of keys: right for every key exactly if the list is increasing *)
RECURSIVE Halve(_, _, _, _)
Halve(s, k, lo, hi) == IF lo >= hi THEN FALSE
                       ELSE LET i == (lo + hi) \div 2
                            IN IF s[i + 1] = k THEN TRUE ELSE IF s[i + 1] < k THEN Halve(s, k, i + 1, hi) ELSE Halve(s, k, lo, i)
Inc(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Lists0 == UNION {[1..n -> 0..3] : n \in 0..4}
ASSUME \A s \in Lists0 : Inc(s) => \A k \in 0..3 : Halve(s, k, 0, Len(s)) = (k \in SetOf(s))
ASSUME \A s \in Lists0 : (~Inc(s) /\ Cardinality(SetOf(s)) = Len(s)) => \E k \in 0..3 : Halve(s, k, 0, Len(s)) # (k \in SetOf(s))
=============================================================================
