----------------------------- MODULE GenTotalSet -----------------------------
(* Behaviours of TotalSet as scripts for the real code (see GenSet); the     *)
(* driver runs them with a universe of size 6.                               *)
EXTENDS TotalSet, TLC, TLCExt, Json, IOUtils

VARIABLE script
GInit == InitWith(6) /\ script = <<>>
Univ  == 0..(n - 1)
Ev(o, i, j, k, x, xs) == [o |-> o, i |-> i, j |-> j, k |-> k, x |-> x, m |-> RandomElement(0..2), xs |-> xs]
RandomSeq(c) == [p \in 1..c |-> RandomElement(Univ)]
Step(e)  == Do(e) /\ script' = Append(script, e)
GNext ==
    \/ \E i \in Regs, x \in Univ, o \in {"insert", "remove"} : \E e \in {Ev(o, i, 0, 0, x, <<>>)} : Step(e)
    \/ \E i \in Regs, c \in 0..5 : \E e \in {Ev("fromset", i, 0, 0, 0, RandomSeq(c))} : Step(e)
    \/ \E i \in Regs, x \in {0, 1} : \E e \in {Ev("const", i, 0, 0, x, <<>>)} : Step(e)
    \/ \E i \in Regs, o \in {"not", "shrink"} : \E e \in {Ev(o, i, 0, 0, 0, <<>>)} : Step(e)
    \/ \E i, k \in Regs : \E e \in {Ev("not3", i, 0, k, 0, <<>>)} : Step(e)
    \/ \E i, j \in Regs, o \in {"clone", "relate", "u", "i", "d", "x"} : \E e \in {Ev(o, i, j, 0, 0, <<>>)} : Step(e)
    \/ \E i, j, k \in Regs, o \in {"u3", "i3", "d3", "x3"} : \E e \in {Ev(o, i, j, k, 0, <<>>)} : Step(e)
Depth == 38
Emit == Len(script) = Depth =>
          Serialize(ToJson(script) \o "\n", IOEnv.OUT,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
