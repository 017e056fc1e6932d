------------------------------ MODULE GenRadix ------------------------------
(* Behaviours of Radix as scripts for the real code (see GenSet).            *)
EXTENDS Radix, TLC, TLCExt, Json, IOUtils

Letters == 0..2
Vals    == 0..60
VARIABLE script
GInit == Init /\ script = <<>>

RandomKey == [p \in 1..RandomElement(0..4) |-> RandomElement(Letters)]
Ev(o, i, j, k, m, xs, es) == [o |-> o, i |-> i, j |-> j, k |-> k, x |-> m % 2, m |-> m, xs |-> xs, es |-> es]
Ents(n)  == [p \in 1..n |-> <<RandomKey, RandomElement(Vals)>>]
Step(e)  == Do(e) /\ script' = Append(script, e)
Small(i) == \A e \in maps[i] : Len(e[1]) < 12

GNext ==
    \/ \E i \in Regs, o \in {"insert", "insert", "single"}, t \in 1..4 : \E k \in {RandomKey}, v \in {RandomElement(Vals)} : Step(Ev(o, i, 0, 0, v, k, <<>>))
    \/ \E i \in Regs, t \in 1..3 : \E k \in {RandomKey}, v \in {RandomElement(Vals)} : Step(Ev("insert", i, 0, 0, v, k, <<>>))
    \/ \E i \in Regs, n \in 0..6 : \E s \in {Ents(n)}, x \in {0, 1} : Step(Ev("collect", i, 0, 0, x, <<>>, s))
    \/ \E i \in Regs, o \in {"new", "leaf", "reload"}, v \in {RandomElement(Vals)} : Step(Ev(o, i, 0, 0, v, <<>>, <<>>))
    \/ \E i, k \in Regs : \E p \in {RandomKey} : Step(Ev("filter", i, 0, k, 0, p, <<>>))
    \/ \E i \in Regs : \E p \in {RandomKey} : Small(i) /\ Step(Ev("prepend", i, 0, 0, 0, p, <<>>))
    \/ \E i, j \in Regs : Step(Ev("clone", i, j, 0, 0, <<>>, <<>>))
    \/ \E i, j \in Regs, o \in {"unionw", "interw", "diffw", "outerw", "innerw", "leftw", "rmp", "rtp", "rel"}, m \in {RandomElement(0..255)} :
          Step(Ev(o, i, j, 0, m, <<>>, <<>>))
    \/ \E i, j \in Regs, k \in {RandomElement(Regs)}, o \in {"union", "inter", "diff", "outer", "inner", "left"}, m \in {RandomElement(0..255)} :
          Step(Ev(o, i, j, k, m, <<>>, <<>>))
    \/ \E i \in Regs, n \in 1..4 : \E s \in {Ents(n)} : Step(Ev("query", i, 0, 0, 0, <<>>, s))
    \/ \E i \in Regs : \E p \in {RandomKey} : Step(Ev("scan", i, 0, 0, 0, p, <<>>))

Depth == 30
Emit == Len(script) = Depth =>
          Serialize(ToJson(script) \o "\n", IOEnv.OUT,
                    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
