----------------------------- MODULE GenTotalMap -----------------------------
(* Behaviours of TotalMap as scripts for the real code (see GenTotalSet).    *)
EXTENDS TotalMap, TLC, TLCExt, Json, IOUtils

VARIABLE script
GInit == InitWith(6) /\ script = <<>>
Univ  == 0..(n - 1)
Vals  == {0, 1, 2, 3, 50, 96}
Ev(o, i, j, k, x, ps) == [o |-> o, i |-> i, j |-> j, k |-> k, x |-> x, m |-> RandomElement(0..40), ps |-> ps]
RandomSeq(c) == [p \in 1..c |-> <<RandomElement(Univ), RandomElement(Vals)>>]
Step(e)  == Do(e) /\ script' = Append(script, e)
GNext ==
    \/ \E i \in Regs, c \in 0..8, x \in Vals : \E e \in {Ev("new", i, 0, 0, x, RandomSeq(c))} : Step(e)
    \/ \E i \in Regs, x \in Vals : \E e \in {Ev("const", i, 0, 0, x, <<>>)} : Step(e)
    \/ \E i \in Regs, o \in {"zero", "one", "minv", "maxv", "neg"} : \E e \in {Ev(o, i, 0, 0, 0, <<>>)} : Step(e)
    \/ \E i, k \in Regs, o \in {"mapvalues", "squash"} : \E e \in {Ev(o, i, 0, k, 0, <<>>)} : Step(e)
    \/ \E i, j \in Regs : \E e \in {Ev("clone", i, j, 0, 0, <<>>)} : Step(e)
    \/ \E i, j, k \in Regs, o \in {"add", "sub", "mul", "div", "sup", "inf", "combine"} : \E e \in {Ev(o, i, j, k, 0, <<>>)} : Step(e)
Depth == 38
Emit == Len(script) = Depth =>
          Serialize(ToJson(script) \o "\n", IOEnv.OUT,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
