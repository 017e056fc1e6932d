------------------------------- MODULE GenMap -------------------------------
(* Behaviours of VecMap as scripts for the real code (see GenSet).           *)
EXTENDS VecMap, TLC, TLCExt, Json, IOUtils

Univ == 0..6
Vals == 0..60

VARIABLE script
gvars == <<maps, ret, script>>
GInit == Init /\ script = <<>>

Ev(o, i, j, k, m, xs, ps) == [o |-> o, i |-> i, j |-> j, k |-> k, x |-> 0, m |-> m, xs |-> xs, ps |-> ps]
Pair(n)  == <<RandomElement(Univ), RandomElement(Vals)>>
Pairs(n) == [p \in 1..n |-> Pair(p)]
Step(e)  == Do(e) /\ script' = Append(script, e)
Masks    == {RandomElement(0..4095), RandomElement(0..4095), 0}

GNext ==
    \/ \E i \in Regs, o \in {"insert", "mutate"}, t \in 1..4 : \E p \in {Pairs(1)} : Step(Ev(o, i, 0, 0, 0, <<>>, p))
    \/ \E i \in Regs, n \in 0..9, o \in {"collect", "frombtree", "extend"} : \E s \in {Pairs(n)} : Step(Ev(o, i, 0, 0, 0, <<>>, s))
    \/ \E i \in Regs, m \in {RandomElement(0..31), 15} : Step(Ev("retain", i, 0, 0, m, <<>>, <<>>))
    \/ \E i, j \in Regs, o \in {"merge", "combine"} : Step(Ev(o, i, j, 0, 5, <<>>, <<>>))
    \/ \E i, k \in Regs : Step(Ev("mapvalues", i, 0, k, 3, <<>>, <<>>))
    \/ \E i, j \in Regs, k \in {RandomElement(Regs)}, o \in {"oj", "lj", "rj", "ij", "ow", "lw", "rw", "iw"}, m \in Masks :
          Step(Ev(o, i, j, k, m, <<>>, <<>>))
    \/ \E i, j \in Regs : Step(Ev("clone", i, j, 0, 0, <<>>, <<>>))
    \/ \E i \in Regs, o \in {"new", "roundtrip"} : Step(Ev(o, i, 0, 0, 0, <<>>, <<>>))
    \/ \E i \in Regs : \E s \in {[p \in 1..5 |-> RandomElement(Univ)]} : Step(Ev("query", i, 0, 0, 0, s, <<>>))

Depth == 38
Emit == Len(script) = Depth =>
          Serialize(ToJson(script) \o "\n", IOEnv.OUT,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
