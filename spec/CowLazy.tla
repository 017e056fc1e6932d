------------------------------ MODULE CowLazy -------------------------------
(* Radix trees with shared child lists: nodes (cells) with a value and a     *)
(* child list that is either still archived or loaded; loaded lists are      *)
(* counted references, copied before they are changed unless there is only   *)
(* one reference, and shared by everything cloned. Threads work at the same  *)
(* time, each on handles of its own, in the small steps of the code: a cell  *)
(* is locked while its list is loaded or the cell is cloned, and read again  *)
(* without the lock afterwards. With nothing archived this is the copy on    *)
(* write tree without laziness. Each handle must stay what its own calls     *)
(* made it (maps), whatever the others do.                                   *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Slots,     \* each thread has handles numbered by Slots
          Kids,               \* path -> number of children in the archive, for the paths in it
          MaxOps, Vals, Eager, \* Eager: start with everything loaded
          Panics              \* how often cloning a value may panic
VARIABLES cells,   \* cell -> [path, val, kids]: kids is -1 (archived) or a list
          lists,   \* list -> [rc, cs]
          hs,      \* thread, slot -> cell of the handle, or 0
          lock,    \* cell -> thread that holds its lock, or 0
          pc,      \* thread -> what it is doing
          maps,    \* thread, slot -> path -> value: what the handle must hold
          loads,   \* cell -> how often its list was loaded
          ops,     \* thread -> calls made
          truthful,\* every answer was right
          panics   \* how often cloning a value has panicked
vars == <<cells, lists, hs, lock, pc, maps, loads, ops, truthful, panics>>

Paths == DOMAIN Kids
Arch(p) == Len(p) % Vals
NoCell == 0
Handles == Threads \X Slots
Live(h) == hs[h] # NoCell
ListIds == DOMAIN lists
Free(f) == CHOOSE n \in 1..(Cardinality(DOMAIN f) + 1) : n \notin DOMAIN f
Extend(f, n, x) == [i \in DOMAIN f \cup {n} |-> IF i = n THEN x ELSE f[i]]
Add(f, g) == [i \in DOMAIN f \cup DOMAIN g |-> IF i \in DOMAIN g THEN g[i] ELSE f[i]]
Without(f, S) == [i \in DOMAIN f \ S |-> f[i]]
FreeN(f, n) == CHOOSE S \in SUBSET (1..(Cardinality(DOMAIN f) + n)) : Cardinality(S) = n /\ S \cap DOMAIN f = {}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Sorted(S \ {x})

(* contents of the tree below a cell *)
RECURSIVE Holds(_)
Holds(c) == LET n == cells[c] IN
            {<<n.path, n.val>>}
            \cup (IF n.kids = -1 THEN {<<p, Arch(p)>> : p \in {p \in Paths : Len(p) > Len(n.path) /\ SubSeq(p, 1, Len(n.path)) = n.path}}
                  ELSE UNION {Holds(lists[n.kids].cs[i]) : i \in 1..Len(lists[n.kids].cs)})
RECURSIVE Reach(_)    \* lists reachable from a cell
Reach(c) == LET k == cells[c].kids IN
            IF k = -1 THEN {} ELSE {k} \cup UNION {Reach(lists[k].cs[i]) : i \in 1..Len(lists[k].cs)}
Pairs(f) == {<<p, f[p]>> : p \in DOMAIN f}

Idle == [at |-> "idle"]
(* at: what comes next; cell: where; path: the key looked for; slot; set: new value or -1;   *)
(* own: are all lists above uniquely owned (a change in progress)?; list, i: copying a list *)
Walking(at, s, c, p, v) == [at |-> at, slot |-> s, cell |-> c, path |-> p, set |-> v, list |-> 0, i |-> 0, cp |-> <<>>]

(* -------------------------------- loading -------------------------------- *)
LoadedBelow(c, cs, ls) == (* cells and lists after loading the list of c *)
    LET n  == Kids[cs[c].path]
        id == FreeN(cs, n)
        sq == Sorted(id)
        l  == Free(ls)
    IN [cells |-> Add([cs EXCEPT ![c].kids = l],
                      [x \in id |-> [path |-> Append(cs[c].path, CHOOSE i \in 1..n : sq[i] = x),
                                     val |-> Arch(Append(cs[c].path, 1)), kids |-> -1]]),
        lists |-> Extend(ls, l, [rc |-> 1, cs |-> sq])]

Lock(t)  == /\ pc[t].at = "lock" /\ lock[pc[t].cell] = 0
            /\ lock' = [lock EXCEPT ![pc[t].cell] = t]
            /\ pc' = [pc EXCEPT ![t].at = IF cells[pc[t].cell].kids = -1 THEN "load" ELSE "unlock"]
            /\ UNCHANGED <<cells, lists, hs, maps, loads, ops, truthful>>
Load(t)  == /\ pc[t].at = "load"
            /\ LET r == LoadedBelow(pc[t].cell, cells, lists) IN
               /\ cells' = r.cells /\ lists' = r.lists
               /\ lock' = Add([x \in DOMAIN r.cells |-> 0], lock)
               /\ loads' = Add([x \in DOMAIN r.cells |-> 0], [loads EXCEPT ![pc[t].cell] = @ + 1])
            /\ pc' = [pc EXCEPT ![t].at = "unlock"]
            /\ UNCHANGED <<hs, maps, ops, truthful>>
Unlock(t) == /\ pc[t].at = "unlock"
             /\ lock' = [lock EXCEPT ![pc[t].cell] = 0]
             /\ pc' = [pc EXCEPT ![t].at = "read"]
             /\ UNCHANGED <<cells, lists, hs, maps, loads, ops, truthful>>
(* the list is read without the lock: the reference stays good *)
NextCell(t, l) == lists[l].cs[pc[t].path[Len(cells[pc[t].cell].path) + 1]]
Read(t) == /\ pc[t].at = "read"
           /\ LET l == cells[pc[t].cell].kids IN
              IF pc[t].set # -1 /\ lists[l].rc > 1
              THEN pc' = [pc EXCEPT ![t].at = "copy", ![t].list = l, ![t].i = 1, ![t].cp = <<>>]
              ELSE pc' = [pc EXCEPT ![t].at = IF NextCell(t, l) \in DOMAIN cells /\ cells[NextCell(t, l)].path = pc[t].path THEN "end" ELSE "lock",
                                    ![t].cell = NextCell(t, l)]
           /\ UNCHANGED <<cells, lists, hs, lock, maps, loads, ops, truthful>>
(* ------------------------- copying a shared list ------------------------- *)
(* each node of the list is cloned under its own lock *)
CopyLock(t) == /\ pc[t].at = "copy"
               /\ LET c == lists[pc[t].list].cs[pc[t].i] IN
                  /\ lock[c] = 0 /\ lock' = [lock EXCEPT ![c] = t]
               /\ pc' = [pc EXCEPT ![t].at = "copying"]
               /\ UNCHANGED <<cells, lists, hs, maps, loads, ops, truthful>>
Cloned(c, cs, ls) == (* a new cell like c *)
    LET n == Free(cs)
    IN [cell |-> n, cells |-> Extend(cs, n, cs[c]),
        lists |-> IF cs[c].kids = -1 THEN ls ELSE [ls EXCEPT ![cs[c].kids].rc = @ + 1]]
Copying(t) == /\ pc[t].at = "copying"
              /\ LET c == lists[pc[t].list].cs[pc[t].i]
                     r == Cloned(c, cells, lists)
                     cp == Append(pc[t].cp, r.cell)
                     lk == Add([x \in DOMAIN r.cells |-> 0], [lock EXCEPT ![c] = 0])
                     ld == Extend(loads, r.cell, 0)
                 IN /\ cells' = r.cells /\ lists' = r.lists /\ lock' = lk /\ loads' = ld
                    /\ pc' = [pc EXCEPT ![t].at = IF Len(cp) = Len(lists[pc[t].list].cs) THEN "swap" ELSE "copy",
                                        ![t].i = @ + 1, ![t].cp = cp]
              /\ UNCHANGED <<hs, maps, ops, truthful>>
(* ------------------------------- releasing ------------------------------- *)
RECURSIVE Release(_, _, _), ReleaseCells(_, _, _, _)
Release(l, cs, ls) == (* one reference to list l less *)
    IF ls[l].rc > 1 THEN [cells |-> cs, lists |-> [ls EXCEPT ![l].rc = @ - 1]]
    ELSE ReleaseCells(ls[l].cs, 1, cs, Without(ls, {l}))
ReleaseCells(sq, i, cs, ls) ==
    IF i > Len(sq) THEN [cells |-> cs, lists |-> ls]
    ELSE LET k == cs[sq[i]].kids
             c1 == Without(cs, {sq[i]})
             r == IF k = -1 THEN [cells |-> c1, lists |-> ls] ELSE Release(k, c1, ls)
         IN ReleaseCells(sq, i + 1, r.cells, r.lists)
Kept(f, r) == [x \in DOMAIN r.cells |-> IF x \in DOMAIN f THEN f[x] ELSE 0]
Swap(t) == /\ pc[t].at = "swap"
           /\ LET l == Free(lists)
                  ls == Extend(lists, l, [rc |-> 1, cs |-> pc[t].cp])
                  r == Release(pc[t].list, [cells EXCEPT ![pc[t].cell].kids = l], ls)
              IN /\ cells' = r.cells /\ lists' = r.lists
                 /\ lock' = Kept(lock, r) /\ loads' = Kept(loads, r)
           /\ pc' = [pc EXCEPT ![t].at = "read"]
           /\ UNCHANGED <<hs, maps, ops, truthful>>
(* --------------------------------- calls --------------------------------- *)
Ready(t) == pc[t].at = "idle" /\ ops[t] < MaxOps
Begin(t, s, p, v) == /\ Ready(t) /\ Live(<<t, s>>)
                     /\ pc' = [pc EXCEPT ![t] = Walking(IF p = <<>> THEN "end" ELSE "lock", s, hs[<<t, s>>], p, v)]
                     /\ ops' = [ops EXCEPT ![t] = @ + 1]
                     /\ UNCHANGED <<cells, lists, hs, lock, maps, loads, truthful>>
End(t) == /\ pc[t].at = "end"
          /\ LET h == <<t, pc[t].slot>> IN
             IF pc[t].set # -1
             THEN /\ cells' = [cells EXCEPT ![pc[t].cell].val = pc[t].set]
                  /\ maps' = [maps EXCEPT ![h][pc[t].path] = pc[t].set] /\ UNCHANGED truthful
             ELSE /\ truthful' = (truthful /\ cells[pc[t].cell].val = maps[h][pc[t].path])
                  /\ UNCHANGED <<cells, maps>>
          /\ pc' = [pc EXCEPT ![t] = Idle]
          /\ UNCHANGED <<lists, hs, lock, loads, ops>>
(* a snapshot for this or another thread (sent to it): the top cell is the   *)
(* thread's own, nobody waits for its lock                                   *)
Snapshot(t, s, u, q) == /\ Ready(t) /\ Live(<<t, s>>) /\ ~Live(<<u, q>>)
                        /\ LET r == Cloned(hs[<<t, s>>], cells, lists) IN
                           /\ cells' = r.cells /\ lists' = r.lists
                           /\ lock' = Extend(lock, r.cell, 0) /\ loads' = Extend(loads, r.cell, 0)
                           /\ hs' = [hs EXCEPT ![<<u, q>>] = r.cell]
                        /\ maps' = [maps EXCEPT ![<<u, q>>] = maps[<<t, s>>]]
                        /\ ops' = [ops EXCEPT ![t] = @ + 1]
                        /\ UNCHANGED <<pc, truthful>>
Discard(t, s) == /\ Ready(t) /\ Live(<<t, s>>)
                 /\ LET c == hs[<<t, s>>]  r == ReleaseCells(<<c>>, 1, cells, lists) IN
                    /\ cells' = r.cells /\ lists' = r.lists /\ lock' = Kept(lock, r) /\ loads' = Kept(loads, r)
                 /\ hs' = [hs EXCEPT ![<<t, s>>] = NoCell]
                 /\ ops' = [ops EXCEPT ![t] = @ + 1]
                 /\ UNCHANGED <<pc, maps, truthful>>

RECURSIVE LoadAll(_, _, _)
LoadAll(c, cs, ls) == LET n == CHOOSE n \in DOMAIN cs : cs[n].kids = -1 /\ Kids[cs[n].path] > 0
                          m == Kids[cs[n].path]  id == FreeN(cs, m)  sq == Sorted(id)  l == Free(ls)
                      IN IF ~\E n2 \in DOMAIN cs : cs[n2].kids = -1 /\ Kids[cs[n2].path] > 0 THEN [cells |-> cs, lists |-> ls]
                         ELSE LoadAll(c, Add([cs EXCEPT ![n].kids = l],
                                             [x \in id |-> [path |-> Append(cs[n].path, CHOOSE i \in 1..m : sq[i] = x),
                                                            val |-> Arch(Append(cs[n].path, 1)), kids |-> -1]]),
                                      Extend(ls, l, [rc |-> 1, cs |-> sq]))
First == <<CHOOSE t \in Threads : \A u \in Threads : t <= u, CHOOSE s \in Slots : \A q \in Slots : s <= q>>
(* either one handle with nothing loaded (or, if Eager, everything), or a    *)
(* handle for each thread, cloned after the list of the top node was loaded  *)
One == [x \in {1} |-> [path |-> <<>>, val |-> Arch(<<>>), kids |-> -1]]
Single == LET r == IF Eager THEN LoadAll(1, One, <<>>) ELSE [cells |-> One, lists |-> <<>>]
          IN [cells |-> r.cells, lists |-> r.lists, hs |-> [h \in Handles |-> IF h = First THEN 1 ELSE NoCell]]
RECURSIVE CloneAll(_, _)
CloneAll(T, r) == IF T = {} THEN r
                  ELSE LET t == CHOOSE t \in T : TRUE  x == Cloned(1, r.cells, r.lists)
                       IN CloneAll(T \ {t}, [cells |-> x.cells, lists |-> x.lists, hs |-> [r.hs EXCEPT ![<<t, First[2]>>] = x.cell]])
Warm == LET r == IF Eager THEN Single ELSE LoadedBelow(1, One, <<>>)
        IN CloneAll(Threads \ {First[1]}, [cells |-> r.cells, lists |-> r.lists, hs |-> [h \in Handles |-> IF h = First THEN 1 ELSE NoCell]])
Init == \E st \in {Single, Warm} :
        /\ cells = st.cells /\ lists = st.lists /\ hs = st.hs
        /\ lock = [c \in DOMAIN cells |-> 0] /\ loads = [c \in DOMAIN cells |-> 0]
        /\ panics = 0
        /\ pc = [t \in Threads |-> Idle] /\ ops = [t \in Threads |-> IF st = Warm THEN 1 ELSE 0]
        /\ maps = [h \in Handles |-> [p \in Paths |-> Arch(p)]] /\ truthful = TRUE
Step(t) == \/ Lock(t) \/ Load(t) \/ Unlock(t) \/ Read(t) \/ CopyLock(t) \/ Copying(t) \/ Swap(t) \/ End(t)
Calls == \E t \in Threads :
          \/ Step(t)
          \/ \E s \in Slots : \/ \E p \in Paths, v \in {-1, Vals - 1} : Begin(t, s, p, v)
                              \/ \E u \in Threads, q \in Slots : Snapshot(t, s, u, q)
                              \/ Discard(t, s)
(* -------------------------------- panics --------------------------------- *)
(* values are cloned while a list is loaded and while one is copied. If that *)
(* panics, the call is over: the lock is given back, what was made so far is *)
(* dropped, the list is as it was, and a change has not happened.            *)
PanicLoading(t) == /\ pc[t].at = "load"
                   /\ lock' = [lock EXCEPT ![pc[t].cell] = 0]
                   /\ UNCHANGED <<cells, lists, loads>>
PanicCopying(t) == /\ pc[t].at = "copying"
                   /\ LET c == lists[pc[t].list].cs[pc[t].i]
                          r == ReleaseCells(pc[t].cp, 1, cells, lists)
                      IN /\ cells' = r.cells /\ lists' = r.lists
                         /\ lock' = Kept([lock EXCEPT ![c] = 0], r) /\ loads' = Kept(loads, r)
Panic(t) == /\ panics < Panics /\ panics' = panics + 1
            /\ PanicLoading(t) \/ PanicCopying(t)
            /\ pc' = [pc EXCEPT ![t] = Idle]
            /\ UNCHANGED <<hs, maps, ops, truthful>>
Next == \/ Calls /\ UNCHANGED panics
        \/ \E t \in Threads : Panic(t)
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ \A t \in Threads : WF_vars(Step(t) /\ UNCHANGED panics)

(* ------------------------------- properties ------------------------------- *)
Busy(t) == pc[t].at # "idle"
Changing(t, s) == Busy(t) /\ pc[t].slot = s /\ pc[t].set # -1
(* every handle is the tree its own calls made, also while others work (C18, C19) *)
Contents == \A h \in Handles : (Live(h) /\ ~Changing(h[1], h[2])) => Holds(hs[h]) = Pairs(maps[h])
Truthful == truthful
LoadedOnce == \A c \in DOMAIN cells : loads[c] <= 1
(* counts are right: nothing is lost, nothing freed early (C24) *)
Refs(l) == Cardinality({c \in DOMAIN cells : cells[c].kids = l})
Counted == /\ \A l \in ListIds : lists[l].rc = Refs(l)
           /\ \A c \in DOMAIN cells : cells[c].kids # -1 => cells[c].kids \in ListIds
Tops == {hs[h] : h \in {h \in Handles : Live(h)}}
Copies == UNION {{pc[t].cp[i] : i \in 1..Len(pc[t].cp)} : t \in {t \in Threads : Busy(t) /\ pc[t].at \in {"copy", "copying", "swap"}}}
NoGarbage == /\ \A l \in ListIds : Refs(l) >= 1
             /\ DOMAIN cells = Tops \cup Copies \cup UNION {{lists[l].cs[i] : i \in 1..Len(lists[l].cs)} : l \in ListIds}
(* no two threads at one cell, one of them writing its list (C19) *)
At(t, what) == Busy(t) /\ pc[t].at \in what
ReadsList(t, c) == \/ At(t, {"read"}) /\ pc[t].cell = c
                   \/ At(t, {"copying"}) /\ lists[pc[t].list].cs[pc[t].i] = c
WritesList(t, c) == (At(t, {"load"}) \/ At(t, {"swap"})) /\ pc[t].cell = c
NoRace == \A c \in DOMAIN cells : \A t, u \in Threads :
            (t # u /\ WritesList(t, c)) => ~(ReadsList(u, c) \/ WritesList(u, c))
(* a cell that is changed is reachable from the changing handle alone *)
CellsOf(h) == {hs[h]} \cup UNION {{lists[l].cs[i] : i \in 1..Len(lists[l].cs)} : l \in Reach(hs[h])}
OwnWhenChanged == \A t \in Threads : (At(t, {"end", "swap"}) /\ pc[t].set # -1) =>
                     \A h \in Handles : (Live(h) /\ h # <<t, pc[t].slot>>) => pc[t].cell \notin CellsOf(h)
(* locks are held by someone who will give them back *)
Held == \A c \in DOMAIN lock : lock[c] # 0 =>
           LET t == lock[c] IN \/ At(t, {"load", "unlock"}) /\ pc[t].cell = c
                               \/ At(t, {"copying"}) /\ lists[pc[t].list].cs[pc[t].i] = c
(* nobody waits for ever *)
Returns == \A t \in Threads : Busy(t) ~> ~Busy(t)
=============================================================================
