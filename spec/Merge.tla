-------------------------------- MODULE Merge --------------------------------
(* How two ordered sequences are combined: the merge machine (divide and     *)
(* conquer with binary search above a threshold, element by element below),  *)
(* the four forms it is used in (a new sequence, in place with an owned or a *)
(* borrowed right operand, a yes/no question), the storage of the in-place   *)
(* form (target, gap, source in one buffer), who owns which element at every *)
(* moment, and user code (comparison, clone, callback) that may panic.       *)
(* Elements are codes key*8+tag: tag 0 left, 1 right, 2 and 3 their clones,  *)
(* 4 what a callback made.                                                   *)
EXTENDS SetSem, Cost

CONSTANTS KeyMax, Thresholds
VARIABLES
  form,    \* "new", "owned", "ref", "bool"
  op,      \* sets: u i d x; maps: oj lj rj ij
  thr,     \* threshold for the divide and conquer
  A, B0,   \* the operands
  cap0,    \* capacity of the left operand's buffer
  cells, t1, s0, len, cap,   \* the buffer (in place)
  ia,      \* elements of A consumed (not in place)
  ib,      \* elements of B0 consumed
  res,     \* the new sequence
  flight,  \* elements in nobody's storage
  born, dropped,
  todo,    \* what is left to do
  cmps,    \* comparisons made
  calls,   \* keys the callback was called for: <<key, kind>>, kind 0 left 1 right 2 both
  kept,    \* keys for which it returned something
  yes,     \* the answer (bool)
  st       \* "run", "done", "panicked"
vars == <<form, op, thr, A, B0, cap0, cells, t1, s0, len, cap, ia, ib, res, flight, born, dropped, todo, cmps, calls, kept, yes, st>>
fixed == <<form, op, thr, A, B0, cap0>>
buffer == <<cells, t1, s0, len, cap>>

Gap == -1             \* nothing there
InPlace == form \in {"owned", "ref"}
Joins   == {"oj", "lj", "rj", "ij"}
Forms(o) == CASE o \in {"i", "d"} -> {"new", "owned", "ref", "bool"}
              [] o \in {"u", "x"} -> {"new", "owned", "ref"}
              [] o = "oj"         -> {"new", "owned", "ref"}
              [] OTHER            -> {"new", "ref"}
RECURSIVE Coded(_, _)
Coded(ks, t) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE k \in ks : \A j \in ks : k <= j IN <<Code(k, t)>> \o Coded(ks \ {k}, t)

ALeft == IF InPlace THEN SubSeq(cells, s0 + 1, len) ELSE SubSeq(A, ia + 1, Len(A))
BLeft == SubSeq(B0, ib + 1, Len(B0))
Target == IF InPlace THEN SubSeq(cells, 1, t1) ELSE res

(* -------------------------------- the buffer -------------------------------- *)
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 1 THEN 1 ELSE 2 * Pow2((n + 1) \div 2)
(* what the buffer looks like once there is room for n more in the gap *)
Reserved(n) ==
    IF t1 + n <= s0 THEN [cells |-> cells, s0 |-> s0, len |-> len, cap |-> cap]
    ELSE LET c  == IF cap - len >= n THEN cap ELSE Pow2(len + n)
             sn == len - s0
         IN [cells |-> [i \in 1..c |-> IF i > c - sn THEN cells[s0 + i - (c - sn)] ELSE IF i <= t1 THEN cells[i] ELSE Gap],
             s0 |-> c - sn, len |-> c, cap |-> c]
SetBuffer(b) == cells' = b.cells /\ s0' = b.s0 /\ len' = b.len /\ cap' = b.cap
PushTo(b, x) == /\ SetBuffer([b EXCEPT !.cells[t1 + 1] = x]) /\ t1' = t1 + 1

(* ------------------------------- the machine ------------------------------- *)
Init ==
    /\ op \in {"u", "i", "d", "x"} \cup Joins
    /\ form \in Forms(op)
    /\ thr \in Thresholds
    /\ \E S, T \in SUBSET (0..(KeyMax - 1)) : A = Coded(S, 0) /\ B0 = Coded(T, 1)
    /\ cap0 \in (IF InPlace THEN {Len(A), Len(A) + 1, Len(A) + Len(B0)} ELSE {Len(A)})
    /\ cells = [i \in 1..cap0 |-> IF i <= Len(A) THEN A[i] ELSE Gap]
    /\ t1 = 0 /\ s0 = 0 /\ len = Len(A) /\ cap = cap0
    /\ ia = 0 /\ ib = 0 /\ res = <<>> /\ flight = <<>> /\ born = {} /\ dropped = {}
    /\ todo = IF Len(A) > thr \/ Len(B0) > thr THEN <<<<"m", Len(A), Len(B0)>>>> ELSE <<<<"t">>>>
    /\ cmps = 0 /\ calls = <<>> /\ kept = {} /\ yes = FALSE /\ st = "run"

Rest == Tail(todo)
Then(s) == todo' = s \o Rest
Running(name) == st = "run" /\ todo # <<>> /\ Head(todo)[1] = name
Idle == UNCHANGED <<buffer, ia, ib, res, flight, born, dropped, calls, kept, yes>>

(* ------- deciding what comes next ------- *)
Plan == /\ Running("m") /\ UNCHANGED <<fixed, st>> /\ Idle
        /\ LET an == Head(todo)[2]  bn == Head(todo)[3] IN
           IF an = 0 THEN Then(IF bn = 0 THEN <<>> ELSE <<<<"B", bn>>>>) /\ UNCHANGED cmps
           ELSE IF bn = 0 THEN Then(<<<<"A", an>>>>) /\ UNCHANGED cmps
           ELSE LET am == an \div 2
                    k  == K(ALeft[am + 1])
                    below == Cardinality({i \in 1..bn : K(BLeft[i]) < k})
                    hit == below < bn /\ K(BLeft[below + 1]) = k
                IN /\ cmps' = cmps + Log2(bn) + 1
                   /\ Then(IF hit THEN <<<<"m", am, below>>, <<"C">>, <<"m", an - am - 1, bn - below - 1>>>>
                           ELSE <<<<"m", am, below>>, <<"A", 1>>, <<"m", an - am - 1, bn - below>>>>)
Tape == /\ Running("t") /\ UNCHANGED <<fixed, st>> /\ Idle
        /\ IF ALeft = <<>> THEN Then(IF BLeft = <<>> THEN <<>> ELSE <<<<"B", Len(BLeft)>>>>) /\ UNCHANGED cmps
           ELSE IF BLeft = <<>> THEN Then(<<<<"A", Len(ALeft)>>>>) /\ UNCHANGED cmps
           ELSE /\ cmps' = cmps + 1
                /\ LET a == K(ALeft[1])  b == K(BLeft[1])
                   IN Then(<<IF a < b THEN <<"A", 1>> ELSE IF a = b THEN <<"C">> ELSE <<"B", 1>>, <<"t">>>>)

(* ------- what an operation does with each part ------- *)
WithA == CASE op \in {"u", "d", "x"} -> "take" [] op \in {"oj", "lj"} -> "call" [] OTHER -> "drop"
WithB == CASE op \in {"u", "x"} -> "take" [] op \in {"oj", "rj"} -> "call" [] OTHER -> "drop"
Both  == CASE op \in {"u", "i"} -> "take" [] op \in {"d", "x"} -> "drop" [] OTHER -> "call"
Steps(name, n) == [i \in 1..n |-> <<name>>]
PartA == /\ Running("A") /\ UNCHANGED <<fixed, st, cmps>> /\ Idle
         /\ LET n == Head(todo)[2] IN
            Then(CASE WithA = "take" -> <<<<"takeA", n>>>> [] WithA = "drop" -> <<<<"dropA", n>>>> [] OTHER -> Steps("callA", n))
PartB == /\ Running("B") /\ UNCHANGED <<fixed, st, cmps>> /\ Idle
         /\ LET n == Head(todo)[2] IN
            Then(CASE WithB = "take" -> <<<<"takeB", n>>>> [] WithB = "drop" -> <<<<"dropB", n>>>> [] OTHER -> Steps("callB", n))
PartC == /\ Running("C") /\ UNCHANGED <<fixed, st, cmps>> /\ Idle
         /\ Then(CASE Both = "take" -> <<<<"takeA", 1>>, <<"dropB", 1>>>>
                   [] Both = "drop" -> <<<<"dropA", 1>>, <<"dropB", 1>>>>
                   [] OTHER -> <<<<"callC">>>>)

(* ------- carrying it out ------- *)
Answer == yes' = TRUE /\ todo' = <<>> /\ UNCHANGED <<fixed, st, cmps, buffer, ia, ib, res, flight, born, dropped, calls, kept>>
TakeA == /\ Running("takeA")
         /\ LET n == Head(todo)[2] IN
            IF form = "bool" THEN Answer
            ELSE IF form = "new"
            THEN /\ Then(Steps("cloneA", n))
                 /\ UNCHANGED <<fixed, st, cmps>> /\ Idle
            ELSE /\ cells' = [i \in 1..cap |-> IF i > t1 /\ i <= t1 + n THEN cells[s0 + i - t1]
                                               ELSE IF i > s0 /\ i <= s0 + n THEN Gap ELSE cells[i]]
                 /\ t1' = t1 + n /\ s0' = s0 + n /\ Then(<<>>)
                 /\ UNCHANGED <<fixed, st, cmps, len, cap, ia, ib, res, flight, born, dropped, calls, kept, yes>>
DropA == /\ Running("dropA") /\ Then(<<>>)
         /\ LET n == Head(todo)[2] IN
            IF InPlace
            THEN /\ cells' = [i \in 1..cap |-> IF i > s0 /\ i <= s0 + n THEN Gap ELSE cells[i]]
                 /\ s0' = s0 + n /\ dropped' = dropped \cup SetOf(SubSeq(ALeft, 1, n))
                 /\ UNCHANGED <<fixed, st, cmps, t1, len, cap, ia, ib, res, flight, born, calls, kept, yes>>
            ELSE ia' = ia + n /\ UNCHANGED <<fixed, st, cmps, buffer, ib, res, flight, born, dropped, calls, kept, yes>>
CloneA == /\ Running("cloneA") /\ Then(<<>>)
          /\ LET x == ALeft[1] + 2 IN res' = Append(res, x) /\ born' = born \cup {x}
          /\ ia' = ia + 1 /\ UNCHANGED <<fixed, st, cmps, buffer, ib, flight, dropped, calls, kept, yes>>
TakeB == /\ Running("takeB")
         /\ LET n == Head(todo)[2] IN
            IF form = "bool" THEN Answer
            ELSE /\ (IF InPlace THEN SetBuffer(Reserved(n)) /\ UNCHANGED t1 ELSE UNCHANGED buffer)
                 /\ Then(Steps(IF form = "owned" THEN "moveB" ELSE "cloneB", n))
                 /\ UNCHANGED <<fixed, st, cmps, ia, ib, res, flight, born, dropped, calls, kept, yes>>
MoveB == /\ Running("moveB") /\ Then(<<>>) /\ PushTo([cells |-> cells, s0 |-> s0, len |-> len, cap |-> cap], BLeft[1])
         /\ ib' = ib + 1 /\ UNCHANGED <<fixed, st, cmps, ia, res, flight, born, dropped, calls, kept, yes>>
CloneB == /\ Running("cloneB") /\ Then(<<>>) /\ ib' = ib + 1
          /\ LET x == BLeft[1] + 2 IN
             /\ born' = born \cup {x}
             /\ IF InPlace THEN PushTo([cells |-> cells, s0 |-> s0, len |-> len, cap |-> cap], x) /\ UNCHANGED res
                ELSE res' = Append(res, x) /\ UNCHANGED buffer
          /\ UNCHANGED <<fixed, st, cmps, ia, flight, dropped, calls, kept, yes>>
DropB == /\ Running("dropB") /\ Then(<<>>)
         /\ LET n == Head(todo)[2] IN
            /\ ib' = ib + n
            /\ dropped' = dropped \cup (IF form = "owned" THEN SetOf(SubSeq(BLeft, 1, n)) ELSE {})
         /\ UNCHANGED <<fixed, st, cmps, buffer, ia, res, flight, born, calls, kept, yes>>

(* ------- callbacks: the elements concerned are in flight until it returns ------- *)
FlyA == IF InPlace THEN cells' = [cells EXCEPT ![s0 + 1] = Gap] /\ s0' = s0 + 1 /\ UNCHANGED <<t1, len, cap, ia>>
        ELSE ia' = ia + 1 /\ UNCHANGED buffer
Begin(name, kind, fa, fb) ==
    /\ Running(name)
    /\ IF fa THEN FlyA ELSE UNCHANGED <<buffer, ia>>
    /\ ib' = IF fb THEN ib + 1 ELSE ib
    /\ flight' = (IF fa /\ InPlace THEN <<ALeft[1]>> ELSE <<>>) \o (IF fb /\ form = "owned" THEN <<BLeft[1]>> ELSE <<>>)
    /\ Then(<<<<"ret", K(IF fa THEN ALeft[1] ELSE BLeft[1]), kind>>>>)
    /\ UNCHANGED <<fixed, st, cmps, res, born, dropped, calls, kept, yes>>
CallA == Begin("callA", 0, TRUE, FALSE)
CallB == Begin("callB", 1, FALSE, TRUE)
CallC == Begin("callC", 2, TRUE, TRUE)
Return == /\ Running("ret")
          /\ LET k == Head(todo)[2]  kind == Head(todo)[3]  x == Code(k, 4) IN
             /\ calls' = Append(calls, <<k, kind>>)
             /\ flight' = <<>> /\ dropped' = dropped \cup SetOf(flight)
             /\ \/ /\ kept' = kept \cup {k} /\ born' = born \cup {x}
                   /\ IF InPlace THEN PushTo(Reserved(1), x) /\ UNCHANGED res
                      ELSE res' = Append(res, x) /\ UNCHANGED buffer
                \/ UNCHANGED <<kept, born, buffer, res>>
          /\ Then(<<>>) /\ UNCHANGED <<fixed, st, cmps, ia, ib, yes>>

(* ------- the end ------- *)
(* both operands that were owned are gone: whatever is left of them is dropped *)
Leftover == (IF InPlace THEN SetOf(ALeft) ELSE {}) \cup (IF form = "owned" THEN SetOf(BLeft) ELSE {}) \cup SetOf(flight)
Close(how) == /\ st' = how /\ todo' = <<>> /\ flight' = <<>>
              /\ IF InPlace THEN /\ cells' = [i \in 1..cap |-> IF i <= t1 THEN cells[i] ELSE Gap]
                                 /\ s0' = t1 /\ len' = t1 /\ UNCHANGED <<t1, cap>>
                 ELSE UNCHANGED buffer
              /\ UNCHANGED <<fixed, cmps, ia, born, calls, kept, yes>>
Finish == /\ st = "run" /\ todo = <<>> /\ Close("done")
          /\ dropped' = dropped \cup Leftover
          /\ ib' = IF form = "owned" THEN Len(B0) ELSE ib
          /\ UNCHANGED res
UserCode == \/ (Running("m") /\ Head(todo)[2] > 0 /\ Head(todo)[3] > 0) \/ (Running("t") /\ ALeft # <<>> /\ BLeft # <<>>)
            \/ Running("cloneA") \/ Running("cloneB") \/ Running("ret")
Panic == /\ st = "run" /\ UserCode /\ Close("panicked")
         /\ dropped' = dropped \cup Leftover \cup (IF form = "new" THEN SetOf(res) ELSE {})
         /\ res' = <<>> /\ ib' = IF form = "owned" THEN Len(B0) ELSE ib

Next == \/ Plan \/ Tape \/ PartA \/ PartB \/ PartC \/ TakeA \/ DropA \/ CloneA \/ TakeB \/ MoveB \/ CloneB \/ DropB
        \/ CallA \/ CallB \/ CallC \/ Return \/ Finish \/ Panic
        \/ (st # "run" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ------------------------------- properties ------------------------------- *)
SA == SetOf(A)
SB == SetOf(B0)
(* where every element is *)
Owners == <<IF InPlace THEN Target ELSE res, IF InPlace THEN ALeft ELSE <<>>, IF form = "owned" THEN BLeft ELSE <<>>, flight>>
Total  == Len(Owners[1]) + Len(Owners[2]) + Len(Owners[3]) + Len(Owners[4])
HeldNow == UNION {SetOf(Owners[i]) : i \in 1..4}
Given  == (IF InPlace THEN SA ELSE {}) \cup (IF form = "owned" THEN SB ELSE {}) \cup born
(* each element is owned by exactly one place, or has been dropped (C24, C25) *)
OneOwner == /\ Cardinality(HeldNow) = Total
            /\ HeldNow \cap dropped = {}
            /\ HeldNow \cup dropped = Given
            /\ Gap \notin HeldNow
            /\ InPlace => \A i \in 1..cap : (i > t1 /\ i <= s0) \/ i > len \/ cells[i] # Gap
(* what has been produced is ordered at every moment, in particular after a panic *)
Sorted1 == Increasing(Target)
(* the result (C01 C02 C07): by key, and for sets which operand's element *)
Origin(x) == CASE Tag(x) \in {0, 2} -> Code(K(x), 0) [] Tag(x) \in {1, 3} -> Code(K(x), 1) [] OTHER -> x
Covered == CASE op = "oj" -> Keys(SA) \cup Keys(SB) [] op = "lj" -> Keys(SA) [] op = "rj" -> Keys(SB) [] OTHER -> Keys(SA) \cap Keys(SB)
Kind1(k) == IF k \notin Keys(SB) THEN 0 ELSE IF k \notin Keys(SA) THEN 1 ELSE 2
Result == st = "done" =>
    CASE form = "bool" -> yes = (SetOp(op, SA, SB) # {})
      [] op \in Joins  -> /\ SetOf(calls) = {<<k, Kind1(k)>> : k \in Covered} /\ Len(calls) = Cardinality(Covered)
                          /\ Target = Coded(kept, 4) /\ dropped \cap SetOf(Target) = {}
      [] OTHER         -> /\ {Origin(x) : x \in SetOf(Target)} = SetOp(op, SA, SB)
                          /\ Len(Target) = Cardinality(SetOp(op, SA, SB))
(* comparisons (C28) *)
Cheap == cmps <= 3 * (Len(A) + Len(B0)) + 8
(* storage (C29): reductions keep the buffer, and so does everything whose operands fit *)
Fits == /\ (InPlace /\ op \in {"i", "d", "ij", "lj"}) => cap = cap0
        /\ (InPlace /\ Len(A) + Len(B0) <= cap0) => cap = cap0
Bounds == /\ InPlace => (t1 <= s0 /\ s0 <= len /\ len <= cap)
          /\ ib <= Len(B0) /\ ia <= Len(A)
(* it comes to an end *)
Terminates == <>(st # "run")
=============================================================================
