------------------------------ MODULE Ownership ------------------------------
(* Who owns what: values are born once, may be used only while they live,     *)
(* and die once. Between calls the living values are exactly those that some  *)
(* collection holds, each held once unless the collections share.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* events are id*4 + kind *)
Born    == 0
Dropped == 1
Used    == 2
Held    == 3
Id(x) == x \div 4
Kind(x) == x % 4

Nothing == [live |-> {}, next |-> 1, legal |-> TRUE]
Event(st, x) ==
    CASE Kind(x) = Born    -> [live |-> st.live \union {Id(x)}, next |-> st.next + 1,
                               legal |-> st.legal /\ Id(x) = st.next]
      [] Kind(x) = Dropped -> [st EXCEPT !.live = @ \ {Id(x)}, !.legal = @ /\ Id(x) \in st.live]
      [] OTHER             -> [st EXCEPT !.legal = @ /\ Id(x) \in st.live]
After(st, ev) == FoldLeft(Event, st, ev)

RECURSIVE LenSum(_)
LenSum(own) == IF own = <<>> THEN 0 ELSE Len(Head(own)) + LenSum(Tail(own))
HeldBy(own) == UNION {{own[i][n] : n \in 1..Len(own[i])} : i \in 1..Len(own)}
(* nothing lives that is not held, nothing is held that does not live *)
Quiescent(st, own, shared) ==
    /\ st.legal
    /\ HeldBy(own) = st.live
    /\ shared = 0 => LenSum(own) = Cardinality(st.live)
==============================================================================
