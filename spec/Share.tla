------------------------------- MODULE Share --------------------------------
(* Trees whose child lists have identities: a tree is <<prefix, value or -1, *)
(* list, children>>, where list is 0 if there are no children. A state gives *)
(* several trees and the lists that somebody holds on to: <<list, nodes>>,   *)
(* with the nodes as <<prefix, <<value, list>>>>. Two places with the same   *)
(* list share it.                                                            *)
EXTENDS RadixSem

RECURSIVE Plain(_), NodesIn(_, _), SumOver(_)
Plain(t) == <<t[1], t[2], [n \in 1..Len(t[4]) |-> Plain(t[4][n])]>>
Of(t) == Entries(<<>>, Plain(t))
(* the nodes that have children: full key, list, children without theirs     *)
Brief(t) == <<t[1], <<t[2], t[3]>>>>
NodesIn(pre, t) == LET p == pre \o t[1]
                   IN (IF t[3] = 0 THEN {} ELSE {[key |-> p, list |-> t[3], kids |-> [n \in 1..Len(t[4]) |-> Brief(t[4][n])]]})
                      \cup UNION {NodesIn(p, t[4][n]) : n \in 1..Len(t[4])}
Branches(t) == NodesIn(<<>>, t)
ListsIn(t)  == {b.list : b \in Branches(t)}
HeldLists(held) == {held[n][1] : n \in 1..Len(held)}
ValuesIn(kids)  == Cardinality({n \in 1..Len(kids) : kids[n][2][1] # -1})
SumOver(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN ValuesIn(b.kids) + SumOver(S \ {b})

(* the top list, and those on the way to the keys Q: the only ones that an   *)
(* operation at these keys changes                                           *)
OnWay(b, t, Q) == b.list = t[3] \/ \E q \in Q : IsPrefix(b.key, q)
Kept(t, u, Q) == \A b \in Branches(u) : OnWay(b, u, Q) \/ \E a \in Branches(t) : a.key = b.key /\ a.list = b.list
(* what copying the lists on the way costs, if only those are copied that    *)
(* somebody else has too                                                     *)
Elsewhere(all, held, i) == HeldLists(held) \cup UNION {ListsIn(all[h]) : h \in (1..Len(all)) \ {i}}
CopyCost(all, held, i, Q) == SumOver({b \in Branches(all[i]) : b.list \in Elsewhere(all, held, i) /\ OnWay(b, all[i], Q)})

(* ------------------- saving: every list is written once ------------------ *)
Top(t) == IF t[2] = -1 THEN 0 ELSE 1
Occurs(s, c) == Cardinality({n \in 1..Len(s) : s[n] = c})
Unwritten(t, done) == {b \in Branches(t) : b.list \notin done}
ValueCount(t, done, c) == (IF t[2] = c THEN 1 ELSE 0)
    + Cardinality(UNION {{<<b.key, n>> : n \in {n \in 1..Len(b.kids) : b.kids[n][2][1] = c}} : b \in Unwritten(t, done)})
Codes == 0..96
WritesNew(wr, t, done) == /\ Len(wr) = Top(t) + SumOver(Unwritten(t, done))
                          /\ \A n \in 1..Len(wr) : Occurs(wr, wr[n]) = ValueCount(t, done, wr[n])
(* two trees written, and read, one after the other: what they share is written once *)
WritesBoth(wr, t, u) == /\ Len(wr) = Top(t) + SumOver(Branches(t)) + Top(u) + SumOver(Unwritten(u, ListsIn(t)))
                        /\ \A n \in 1..Len(wr) : Occurs(wr, wr[n]) = ValueCount(t, {}, wr[n]) + ValueCount(u, ListsIn(t), wr[n])
(* the same trees, the same sharing                                          *)
Places(t, u) == {<<1, b.key, b.list>> : b \in Branches(t)} \cup {<<2, b.key, b.list>> : b \in Branches(u)}
SameSharing(t, u, v, w) ==
    /\ Plain(t) = Plain(v) /\ Plain(u) = Plain(w)
    /\ \A p, q \in Places(t, u) : \A x, y \in Places(v, w) :
          (<<p[1], p[2]>> = <<x[1], x[2]>> /\ <<q[1], q[2]>> = <<y[1], y[2]>>) => ((p[3] = q[3]) <=> (x[3] = y[3]))

(* ------------------------------- the steps ------------------------------- *)
(* s is the state before: [all, held, roots]; e records the call and the     *)
(* state after it                                                            *)
SameBut(s, e, H) == \A h \in 1..Len(s.all) : h \in H \/ e.all[h] = s.all[h]
HeldStay(s, e)   == e.held = s.held
Updates == {"insert", "diff", "union", "inter", "removep", "retp"}
KeysOf(e) == IF e.o = "insert" THEN {e.k} ELSE {e.es[n][1] : n \in 1..Len(e.es)}
Result(M, e) ==
    LET E == SetOf(e.es)
    IN CASE e.o = "insert"  -> Put(M, e.k, e.x)
         [] e.o = "diff"    -> Diff(M, E)
         [] e.o = "union"   -> Union(M, E)
         [] e.o = "inter"   -> Inter(M, E)
         [] e.o = "removep" -> {m \in M : ~\E p \in Dom(E) : IsPrefix(p, m[1])}
         [] e.o = "retp"    -> {m \in M : \E p \in Dom(E) : IsPrefix(p, m[1])}
(* what comes from the operand may be handed down with a copy at every level *)
RECURSIVE Handed(_)
Handed(es) == IF es = <<>> THEN 0 ELSE Len(es[1][1]) + 2 + Handed(Tail(es))
FromOperand(e) == CASE e.o = "insert" -> Len(e.k) + 2 [] e.o = "union" -> Handed(e.es) [] OTHER -> 0
Update(s, e) ==
    /\ SameBut(s, e, {e.i}) /\ HeldStay(s, e)
    /\ Of(e.all[e.i]) = Result(Of(s.all[e.i]), e)
    /\ Kept(s.all[e.i], e.all[e.i], KeysOf(e))
    /\ e.cl <= CopyCost(s.all, s.held, e.i, KeysOf(e)) + FromOperand(e)
New(s, e)   == SameBut(s, e, {e.i}) /\ HeldStay(s, e) /\ Of(e.all[e.i]) = SetOf(e.es) /\ e.cl = 0
Clone(s, e) == SameBut(s, e, {e.j}) /\ HeldStay(s, e) /\ e.all[e.j] = s.all[e.i] /\ e.cl <= 1
Discard(s, e) == SameBut(s, e, {e.i}) /\ HeldStay(s, e) /\ e.all[e.i] = <<<<>>, -1, 0, <<>>>> /\ e.cl = 0
PrependTo(s, e) == /\ SameBut(s, e, {e.i}) /\ HeldStay(s, e) /\ e.cl = 0
                   /\ Of(e.all[e.i]) = Prepend(Of(s.all[e.i]), e.k)
                   /\ e.all[e.i][3] = s.all[e.i][3] /\ e.all[e.i][4] = s.all[e.i][4]
FilterTo(s, e) == /\ SameBut(s, e, {e.j}) /\ HeldStay(s, e) /\ e.cl <= 1
                  /\ Of(e.all[e.j]) = Filter(Of(s.all[e.i]), e.k)
                  /\ ListsIn(e.all[e.j]) \subseteq ListsIn(s.all[e.i])
(* the lists of a tree, each of them once, with what is in them              *)
AreListsOf(ls, ts) ==
    LET bs == UNION {Branches(t) : t \in ts}
    IN /\ Len(ls) = Cardinality({b.list : b \in bs})
       /\ SetOf(ls) = {<<b.list, b.kids>> : b \in bs}
Hold(s, e) == /\ SameBut(s, e, {}) /\ e.cl = 0
              /\ AreListsOf(e.arcs, {s.all[e.i]})
              /\ SetOf(e.held) = SetOf(s.held) \cup SetOf(e.arcs) /\ Len(e.held) = Cardinality(SetOf(e.held))
(* what several threads are told at the same time, each by a handle of its   *)
(* own, is what one of them would be told alone                              *)
Crowd(s, e) == /\ SameBut(s, e, {}) /\ e.cl = 0 /\ e.held = s.held
               /\ Len(e.told) = 1 /\ AreListsOf(e.told[1], {s.all[e.i]})
Release(s, e) == SameBut(s, e, {}) /\ e.held = <<>>
Save(s, e) == /\ SameBut(s, e, {})
              /\ WritesNew(e.wr, s.all[e.i], s.written)
              /\ SetOf(e.held) = SetOf(s.held) \cup {<<b.list, b.kids>> : b \in Branches(s.all[e.i])}
              /\ Len(e.roots) = Len(s.roots) + 1
              /\ SubSeq(e.roots, 1, Len(s.roots)) = s.roots
              /\ SetOf(e.roots[Len(e.roots)]) = Of(s.all[e.i]) /\ Len(e.roots[Len(e.roots)]) = Cardinality(Of(s.all[e.i]))
Vacuum(s, e) == Save([s EXCEPT !.held = <<>>, !.written = {}, !.roots = <<>>], e)
Load(s, e) == /\ SameBut(s, e, {e.i}) /\ e.roots = s.roots
              /\ Of(e.all[e.i]) = SetOf(s.roots[Len(s.roots)]) /\ IsTreeOf(Plain(e.all[e.i]), Of(e.all[e.i]))
              /\ WritesNew(e.rd, e.all[e.i], {})
              /\ AreListsOf(e.held, {e.all[e.i]})
(* t, u: what was saved *)
LoadAll(s, e, t, u) == /\ SameBut(s, e, {}) /\ HeldStay(s, e)
                       /\ WritesBoth(e.rd, t, u)
                       /\ SameSharing(t, u, e.two[1], e.two[2])
Pair(s, e) == /\ SameBut(s, e, {}) /\ HeldStay(s, e)
              /\ WritesBoth(e.wr, s.all[e.i], s.all[e.j]) /\ WritesBoth(e.rd, s.all[e.i], s.all[e.j])
              /\ SameSharing(s.all[e.i], s.all[e.j], e.two[1], e.two[2])
=============================================================================
