------------------------------ MODULE Persist -------------------------------
(* Saving a copy-on-write tree again and again to one file that only grows.  *)
(* Child lists live at addresses of a heap; an address is used again once    *)
(* nobody refers to it. A change copies the lists on its way that somebody   *)
(* else refers to, and changes the others in place. Saving writes the lists  *)
(* that are not registered as written, by address, children first, then the  *)
(* top node. What makes the registry right is that every list written is     *)
(* also held: then it neither changes in place nor loses its address.        *)
(* Loading after a crash rebuilds the tree from the last top node that is    *)
(* complete, the registry from where each list was found, and what is held.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Addresses, Values, Saves, Changes, Holding
VARIABLES heap,    \* address -> list of nodes [v, kid] (kid 0: no children)
          tops,    \* the trees: top nodes [v, kid]; v = 0: no such tree
          held,    \* addresses held for the sake of the registry
          reg,     \* address -> where in the file, 0 if not written
          file,    \* what was written: lists of nodes [v, kid] with places as kids, and top nodes
          roots,   \* the saves: place of the top node, and what was saved
          left     \* changes that may still be made
vars == <<heap, tops, held, reg, file, roots, left>>

Handles == 1..2
NoTree  == [v |-> 0, kid |-> 0]
Live    == {h \in Handles : tops[h].v # 0}
RECURSIVE Below(_, _)
(* the addresses used by the nodes of a list, and below *)
Below(hp, a) == IF a = 0 THEN {} ELSE {a} \cup UNION {Below(hp, hp[a][n].kid) : n \in 1..Len(hp[a])}
InUse(hp, tp, hd) == UNION {Below(hp, tp[h].kid) : h \in Handles} \cup UNION {Below(hp, a) : a \in hd}
(* how many refer to a: nodes of lists in use, tops, and the holder          *)
RefCount(hp, tp, hd, a) ==
    Cardinality({h \in Handles : tp[h].v # 0 /\ tp[h].kid = a})
    + Cardinality({x \in InUse(hp, tp, hd) \X (1..2) : x[2] <= Len(hp[x[1]]) /\ hp[x[1]][x[2]].kid = a})
    + (IF a \in hd THEN 1 ELSE 0)
Clean(hp, tp, hd) == [a \in Addresses |-> IF a \in InUse(hp, tp, hd) THEN hp[a] ELSE <<>>]
(* what a list, or a top node, means *)
RECURSIVE Meaning(_, _), Written(_, _)
Meaning(hp, a) == IF a = 0 THEN <<>> ELSE [n \in 1..Len(hp[a]) |-> <<hp[a][n].v, Meaning(hp, hp[a][n].kid)>>]
Means(hp, t)   == <<t.v, Meaning(hp, t.kid)>>
Written(f, p)  == IF p = 0 THEN <<>> ELSE [n \in 1..Len(f[p]) |-> <<f[p][n].v, Written(f, f[p][n].kid)>>]
Saved(f, p)    == <<f[p][1].v, Written(f, f[p][1].kid)>>

(* copy on write along a path from top node t: [heap, kid, ok] *)
Free(hp, tp, hd) == Addresses \ InUse(hp, tp, hd)
(* the change: a new value, children cut off, or a new child *)
Edit(node, what, v, hp, free) ==
    CASE what = "set"  -> [hp |-> hp, node |-> [node EXCEPT !.v = v], ok |-> TRUE]
      [] what = "cut"  -> [hp |-> hp, node |-> [node EXCEPT !.kid = 0], ok |-> node.kid # 0]
      [] what = "grow" -> IF node.kid # 0 \/ free = {} THEN [hp |-> hp, node |-> node, ok |-> FALSE]
                          ELSE LET a == CHOOSE a \in free : TRUE
                               IN [hp |-> [hp EXCEPT ![a] = <<[v |-> v, kid |-> 0]>>], node |-> [node EXCEPT !.kid = a], ok |-> TRUE]
(* tp is the state of the trees with the way down so far already copied *)
RECURSIVE Change(_, _, _, _, _, _, _)
Change(hp, tp, hd, h, path, what, v) ==
    (* first own the lists on the way, top down; then edit the node at the end *)
    LET RECURSIVE Down(_, _, _)
        Down(hq, tq, seen) ==     \* seen: part of the path that is owned; returns [hp, tp, ok]
            IF Len(seen) = Len(path) THEN [hp |-> hq, tp |-> tq, ok |-> TRUE]
            ELSE LET RECURSIVE AtPath(_, _)
                     AtPath(a, p) == IF p = <<>> THEN a ELSE AtPath(hq[a][p[1]].kid, Tail(p))
                     a == AtPath(tq[h].kid, seen)
                 IN IF a = 0 \/ path[Len(seen) + 1] > Len(hq[a]) THEN [hp |-> hq, tp |-> tq, ok |-> FALSE]
                    ELSE IF RefCount(hq, tq, hd, a) = 1 THEN Down(hq, tq, Append(seen, path[Len(seen) + 1]))
                    ELSE IF Free(hq, tq, hd) = {} THEN [hp |-> hq, tp |-> tq, ok |-> FALSE]
                    ELSE LET b == CHOOSE b \in Free(hq, tq, hd) : TRUE
                             hc == [hq EXCEPT ![b] = hq[a]]
                         IN IF seen = <<>> THEN Down(hc, [tq EXCEPT ![h].kid = b], <<path[1]>>)
                            ELSE LET o == AtPath(tq[h].kid, SubSeq(seen, 1, Len(seen) - 1))
                                 IN Down([hc EXCEPT ![o][seen[Len(seen)]].kid = b], tq, Append(seen, path[Len(seen) + 1]))
        d == Down(hp, tp, <<>>)
    IN IF ~d.ok THEN [ok |-> FALSE, hp |-> hp, tp |-> tp]
       ELSE IF path = <<>> THEN LET e == Edit(d.tp[h], what, v, d.hp, Free(d.hp, d.tp, hd))
                                IN [ok |-> e.ok, hp |-> e.hp, tp |-> [d.tp EXCEPT ![h] = e.node]]
       ELSE LET RECURSIVE AtPath(_, _)
                AtPath(a, p) == IF Len(p) = 1 THEN a ELSE AtPath(d.hp[a][p[1]].kid, Tail(p))
                o == AtPath(d.tp[h].kid, path)
                n == path[Len(path)]
                e == Edit(d.hp[o][n], what, v, d.hp, Free(d.hp, d.tp, hd))
            IN [ok |-> e.ok, hp |-> [e.hp EXCEPT ![o][n] = e.node], tp |-> d.tp]
Paths == {<<>>, <<1>>, <<2>>, <<1, 1>>, <<2, 1>>}

(* write what is below address a and not registered: <<file, registry>> *)
RECURSIVE Write(_, _, _, _), WriteKids(_, _, _, _, _)
Write(hp, f, r, a) ==
    IF a = 0 \/ r[a] # 0 THEN <<f, r>>
    ELSE LET k == WriteKids(hp, f, r, a, 1)
             p == Len(k[1]) + 1
         IN <<Append(k[1], [n \in 1..Len(hp[a]) |-> [v |-> hp[a][n].v, kid |-> IF hp[a][n].kid = 0 THEN 0 ELSE k[2][hp[a][n].kid]]]),
              [k[2] EXCEPT ![a] = p]>>
WriteKids(hp, f, r, a, n) == IF n > Len(hp[a]) THEN <<f, r>>
                             ELSE LET w == Write(hp, f, r, hp[a][n].kid) IN WriteKids(hp, w[1], w[2], a, n + 1)

(* ------------------------------- actions ------------------------------- *)
Init == /\ heap = [a \in Addresses |-> IF a = 1 THEN <<[v |-> 1, kid |-> 2], [v |-> 1, kid |-> 0]>>
                                       ELSE IF a = 2 THEN <<[v |-> 1, kid |-> 0]>> ELSE <<>>]
        /\ tops = <<[v |-> 1, kid |-> 1], NoTree>>
        /\ held = {} /\ reg = [a \in Addresses |-> 0] /\ file = <<>> /\ roots = <<>> /\ left = Changes
Modify == \E h \in Live, p \in Paths, what \in {"set", "cut", "grow"}, v \in Values :
             LET c == Change(heap, tops, held, h, p, what, v)
             IN /\ left > 0 /\ left' = left - 1
                /\ what = "cut" => v = 1
                /\ c.ok /\ heap' = Clean(c.hp, c.tp, held) /\ tops' = c.tp /\ UNCHANGED <<held, reg, file, roots>>
Snapshot == \E h \in Live, g \in Handles : g # h /\ tops' = [tops EXCEPT ![g] = tops[h]]
               /\ heap' = Clean(heap, tops', held) /\ UNCHANGED <<held, reg, file, roots, left>>
Discard  == \E h \in Live : Cardinality(Live) > 1 /\ tops' = [tops EXCEPT ![h] = NoTree]
               /\ heap' = Clean(heap, tops', held) /\ UNCHANGED <<held, reg, file, roots, left>>
Save == \E h \in Live :
          /\ Len(roots) < Saves
          /\ LET w == Write(heap, file, reg, tops[h].kid)
                 t == [v |-> tops[h].v, kid |-> IF tops[h].kid = 0 THEN 0 ELSE w[2][tops[h].kid]]
             IN /\ file' = Append(w[1], <<t>>) /\ reg' = w[2]
                /\ roots' = Append(roots, <<Len(w[1]) + 1, Means(heap, tops[h])>>)
          /\ held' = IF Holding THEN held \cup Below(heap, tops[h].kid) ELSE held
          /\ UNCHANGED <<heap, tops, left>>
(* a crash, perhaps in the middle of writing (the part after the last        *)
(* complete top node is cut off), and loading again                          *)
RECURSIVE ReadList(_, _, _), ReadNodes(_, _, _, _)
(* <<heap, place -> address>> *)
ReadList(hp, at, p) == IF p = 0 \/ at[p] # 0 THEN <<hp, at>>
                       ELSE LET k == ReadNodes(hp, at, p, 1)
                                a == CHOOSE a \in Addresses : a \notin {k[2][q] : q \in DOMAIN k[2]}
                            IN <<[k[1] EXCEPT ![a] = [n \in 1..Len(file[p]) |-> [v |-> file[p][n].v, kid |-> IF file[p][n].kid = 0 THEN 0 ELSE k[2][file[p][n].kid]]]],
                                 [k[2] EXCEPT ![p] = a]>>
ReadNodes(hp, at, p, n) == IF n > Len(file[p]) THEN <<hp, at>>
                           ELSE LET r == ReadList(hp, at, file[p][n].kid) IN ReadNodes(r[1], r[2], p, n + 1)
Load == /\ roots # <<>>
        /\ LET last == roots[Len(roots)][1]
               r == ReadList([a \in Addresses |-> <<>>], [p \in 1..Len(file) |-> 0], file[last][1].kid)
               kid == IF file[last][1].kid = 0 THEN 0 ELSE r[2][file[last][1].kid]
           IN /\ heap' = r[1]
              /\ tops' = <<[v |-> file[last][1].v, kid |-> kid], NoTree>>
              /\ reg' = [a \in Addresses |-> IF \E p \in 1..Len(file) : r[2][p] = a THEN CHOOSE p \in 1..Len(file) : r[2][p] = a ELSE 0]
              /\ held' = Below(r[1], kid)
        /\ UNCHANGED <<file, roots, left>>
(* a fresh file with what one tree needs *)
Vacuum == \E h \in Live :
            /\ roots # <<>>
            /\ LET w == Write(heap, <<>>, [a \in Addresses |-> 0], tops[h].kid)
                   t == [v |-> tops[h].v, kid |-> IF tops[h].kid = 0 THEN 0 ELSE w[2][tops[h].kid]]
               IN file' = Append(w[1], <<t>>) /\ reg' = w[2] /\ roots' = <<<<Len(w[1]) + 1, Means(heap, tops[h])>>>>
            /\ held' = Below(heap, tops[h].kid)
            /\ heap' = Clean(heap, tops, held') /\ UNCHANGED <<tops, left>>
Next == Modify \/ Snapshot \/ Discard \/ Save \/ Load \/ Vacuum
Spec == Init /\ [][Next]_vars

(* ------------------------------- properties ------------------------------ *)
(* every save reads back as what was saved, however much was saved after it  *)
Durable == \A n \in 1..Len(roots) : Saved(file, roots[n][1]) = roots[n][2]
(* what is registered is in the file just as it is in memory *)
Registered == \A a \in Addresses : reg[a] # 0 => Meaning(heap, a) = Written(file, reg[a])
(* what was saved of a tree that has not been changed since is written again as a top node alone *)
NothingTwice == \A h \in Live : (roots # <<>> /\ Below(heap, tops[h].kid) \subseteq {a \in Addresses : reg[a] # 0})
                                   => Write(heap, file, reg, tops[h].kid)[1] = file
=============================================================================
