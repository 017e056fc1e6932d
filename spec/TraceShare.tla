----------------------------- MODULE TraceShare -----------------------------
(* Histories of trees that share child lists. The state is what the trace    *)
(* shows after each call, and what has been written to the file so far.      *)
EXTENDS Share, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)
VARIABLES l, written, roots
vars == <<l, written, roots>>

Firsts == {n \in 1..N : Trace[n].first = 1}
Blank  == <<<<>>, -1, 0, <<>>>>
Nothing == [all |-> [h \in 1..4 |-> Blank], held |-> <<>>, written |-> {}, roots |-> <<>>]
Before(n) == IF Trace[n].first = 1 THEN Nothing
             ELSE [all |-> Trace[n-1].all, held |-> Trace[n-1].held, written |-> written, roots |-> roots]
Allowed(n) ==
    LET e == Trace[n] s == Before(n)
    IN CASE e.o = "new"     -> New(s, e)
         [] e.o = "clone"   -> Clone(s, e)
         [] e.o \in Updates -> Update(s, e)
         [] e.o = "prepend" -> PrependTo(s, e)
         [] e.o = "filterp" -> FilterTo(s, e)
         [] e.o = "drop"    -> Discard(s, e)
         [] e.o = "hold"    -> Hold(s, e)
         [] e.o = "crowd"   -> Crowd(s, e)
         [] e.o = "release" -> Release(s, e)
         [] e.o = "save"    -> Save(s, e)
         [] e.o = "vacuum"  -> Vacuum(s, e)
         [] e.o = "load"    -> Load(s, e)
         [] e.o = "loadall" -> IF e.at = <<>> THEN SameBut(s, e, {})
                               ELSE LoadAll(s, e, Trace[e.at[1]].all[Trace[e.at[1]].i], Trace[e.at[2]].all[Trace[e.at[2]].i])
         [] e.o = "pair"    -> Pair(s, e)
(* lists are known by name only while somebody has them: what was written    *)
(* stays held until the file is left behind                                  *)
After(n) == LET e == Trace[n]
                w == IF e.first = 1 THEN {} ELSE written
                r == IF e.first = 1 THEN <<>> ELSE roots
            IN CASE e.o = "save"   -> <<w \cup ListsIn(e.all[e.i]), e.roots>>
                 [] e.o = "vacuum" -> <<ListsIn(e.all[e.i]), e.roots>>
                 [] e.o = "load"   -> <<ListsIn(e.all[e.i]), e.roots>>
                 [] OTHER          -> <<w, r>>
TraceInit == l \in Firsts /\ written = {} /\ roots = <<>>
TraceNext == /\ l < N /\ Trace[l + 1].first = 0
             /\ l' = l + 1
             /\ LET a == After(l) IN written' = a[1] /\ roots' = a[2]
(* l is about to be checked in the state before it *)
Ok == Allowed(l)
=============================================================================
