------------------------------- MODULE GenSet -------------------------------
(* Behaviours of VecSet as scripts for the real code: in simulation mode     *)
(* every behaviour that reaches full length is appended to the file OUT.     *)
EXTENDS VecSet, TLC, TLCExt, Json, IOUtils

Univ  == 0..5
Tags  == 0..2
Codes == {Code(k, t) : k \in Univ, t \in Tags}

VARIABLE script
gvars == <<sets, ret, script>>
GInit == Init /\ script = <<>>

Ev(o, i, j, k, x, xs) == [o |-> o, i |-> i, j |-> j, k |-> k, x |-> x, xs |-> xs]
RandomSeq(n) == [p \in 1..n |-> RandomElement(Codes)]
DistinctKeys(s) == \A p, q \in 1..Len(s) : p # q => K(s[p]) # K(s[q])

Inplace == {"uo", "ur", "uw", "io", "ir", "iw", "do", "dr", "dw", "xo", "xr", "xw"}
Step(e) == Do(e) /\ script' = Append(script, e)

GNext ==
    \/ \E i \in Regs, x \in Codes : Step(Ev("insert", i, 0, 0, x, <<>>))
    \/ \E i \in Regs, x \in Codes : Step(Ev("remove", i, 0, 0, x, <<>>))
    \/ \E i \in Regs, n \in 0..9 : \E s \in {RandomSeq(n)} :
          \E o \in {"collect", "fromvec", "extend"} : Step(Ev(o, i, 0, 0, 0, s))
    \/ \E i \in Regs, m \in 0..15 : Step(Ev("retain", i, 0, 0, m, <<>>))
    \/ \E i, j \in Regs, o \in Inplace : Step(Ev(o, i, j, 0, 0, <<>>))
    \/ \E i, j, k \in Regs, o \in {"u3", "i3", "d3", "x3"} : Step(Ev(o, i, j, k, 0, <<>>))
    \/ \E i, j \in Regs, o \in {"clone", "relate"} : Step(Ev(o, i, j, 0, 0, <<>>))
    \/ \E i \in Regs, o \in {"shrink", "new"} : Step(Ev(o, i, 0, 0, 0, <<>>))
    \/ \E i \in Regs, x \in 0..4 : Step(Ev("roundtrip", i, 0, 0, x, <<>>))
    \/ \E i \in Regs, s \in {RandomSeq(6)} : Step(Ev("query", i, 0, 0, 0, s))

Depth == 38
Emit == Len(script) = Depth =>
          Serialize(ToJson(script) \o "\n", IOEnv.OUT,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Bounded == Len(script) < Depth
=============================================================================
