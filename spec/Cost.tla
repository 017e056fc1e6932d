-------------------------------- MODULE Cost --------------------------------
(* What operations may cost. Two operands are described by how their merged   *)
(* order falls into blocks: <<1, n>> n elements only on the left, <<2, n>>    *)
(* only on the right, <<3, n>> on both sides.                                 *)
EXTENDS Integers, Sequences

RECURSIVE Log2(_)          \* rounded up: the least k with 2^k >= n
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2((n + 1) \div 2)

RECURSIVE Sum(_, _)
Sum(blocks, kinds) == IF blocks = <<>> THEN 0
                      ELSE (IF Head(blocks)[1] \in kinds THEN Head(blocks)[2] ELSE 0) + Sum(Tail(blocks), kinds)
LeftSize(blocks)  == Sum(blocks, {1, 3})
RightSize(blocks) == Sum(blocks, {2, 3})
(* how often a merge has to switch sides; common elements count one by one *)
RECURSIVE Switches(_)
Switches(blocks) ==
    IF blocks = <<>> THEN 0
    ELSE LET b == Head(blocks) IN
         (IF b[1] = 3 THEN 2 * b[2] ELSE 1) + Switches(Tail(blocks))

LookupBound(n)     == 2 * Log2(n + 1) + 4
DenseBound(blocks) == 3 * (LeftSize(blocks) + RightSize(blocks)) + 8
SparseBound(blocks) == 6 * (Switches(blocks) + 1) * (Log2(LeftSize(blocks) + RightSize(blocks) + 1) + 1)
SortedBound(n)     == 3 * n + 8
=============================================================================
