----------------------------- MODULE TraceSerde -----------------------------
(* Recorded deserialisations (C21). Data, and the contents of a collection,  *)
(* are <<ok, list of <<key, value>>, flag>>: ok is 1, 0 for an error or -1   *)
(* for a panic, keys and values are ranks, the flag is the sign of a set     *)
(* with negation or the default value of a total map.                        *)
EXTENDS Elements, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N     == Len(Trace)
VARIABLE l
Starts == {1 + (s * N) \div 16 : s \in 0..15} \cap 1..N
TraceInit == l \in Starts
TraceNext == l < N /\ (l + 1) \notin Starts /\ l' = l + 1

ByKey(s) == \A i \in 1..(Len(s) - 1) : s[i][1] < s[i+1][1]
KeysOf(s) == {s[i][1] : i \in 1..Len(s)}

(* the contents out are what the data d says *)
Contents(kind, d, out) ==
    /\ ByKey(out[2])
    /\ out[3] = d[3]
    /\ LET given == SetOf(d[2])  stored == KeysOf(out[2]) IN
       /\ SetOf(out[2]) \subseteq given          \* one of the values given for the key
       /\ IF kind = "tmap"                       \* what equals the default is not stored
          THEN /\ \A i \in 1..Len(out[2]) : out[2][i][2] # d[3]
               /\ \A i \in 1..Len(d[2]) : d[2][i][1] \in stored \/ <<d[2][i][1], d[3]>> \in given
          ELSE stored = KeysOf(d[2])
Decodes(kind, d, out) == IF d[1] = 1 THEN out[1] = 1 /\ Contents(kind, d, out)
                         ELSE out[1] = 0
Ok == LET e == Trace[l]
      IN \A i \in 1..Len(e.outs) : /\ Decodes(e.kind, e.ref, e.outs[i][1])
                                   /\ e.outs[i][2] = 1         \* a round trip gives an equal collection
=============================================================================
