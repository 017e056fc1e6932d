------------------------------ MODULE SortDedup ------------------------------
(* The incremental sort-and-deduplicate aggregator, one action per element.  *)
(* data: what it holds; sorted: how many leading elements are known to be    *)
(* strictly increasing.                                                      *)
EXTENDS SortOps

CONSTANTS KeySet, MaxLen
VARIABLES in, data, sorted, keep, done, peak
vars == <<in, data, sorted, keep, done, peak>>

Init == /\ in = <<>> /\ data = <<>> /\ sorted = 0 /\ done = FALSE /\ peak = 0
        /\ keep \in {"first", "last"}

Push(x) == /\ ~done /\ Len(in) < MaxLen
           /\ in' = Append(in, x)
           /\ LET p == PushedTo(data, sorted, x, keep)
                  q == Settled(p, keep)
              IN /\ data' = q.d /\ sorted' = q.n
                 /\ peak' = Max(peak, Len(p.d))
           /\ UNCHANGED <<keep, done>>
Finish == /\ ~done /\ done' = TRUE
          /\ data' = Compact(data, sorted, keep) /\ sorted' = Len(data')
          /\ UNCHANGED <<in, keep, peak>>
(* every element of the input is new: its tag is its position *)
Next == (\E k \in KeySet : Push(Code(k, Len(in)))) \/ Finish
Spec == Init /\ [][Next]_vars

SortedPrefix == \A i \in 1..(sorted - 1) : K(data[i]) < K(data[i+1])
Result   == done => Represents(data, IF keep = "first" THEN FirstWins(in) ELSE LastWins(in))
(* what is held is what was handed in, and never much more than twice the    *)
(* distinct elements                                                         *)
(* as a function, step by step the same *)
Agrees   == done => LET c == Collected(in, keep) IN c.d = data /\ c.peak = peak
Content  == SetOf(data) \subseteq SetOf(in) /\ Keys(SetOf(data)) = Keys(SetOf(in))
Storage  == peak <= Max(Threshold, 2 * Cardinality(Keys(SetOf(in))) + 1)
=============================================================================
