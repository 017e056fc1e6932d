------------------------------ MODULE TraceBulk ------------------------------
(* Recorded bulk builds (C04) and their storage (C05).                       *)
EXTENDS SetSem, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
What  == IOEnv.WHAT            \* "build" or "storage"
N     == Len(Trace)

VARIABLE l
Starts == {1 + (s * N) \div 16 : s \in 0..15} \cap 1..N
TraceInit == l \in Starts
TraceNext == l < N /\ (l + 1) \notin Starts /\ l' = l + 1

All(obs, S) == Len(obs) = 1 /\ Represents(obs[1], S)

(* a map as recorded: increasing list of <<key, value>>; the values are      *)
(* positions in the sequence, so "the last one wins" is a statement on them  *)
LastPositions(s) == {<<K(s[i]), i>> : i \in {j \in 1..Len(s) : \A n \in (j+1)..Len(s) : K(s[n]) # K(s[j])}}
AllPairs(obs, S) == /\ Len(obs) = 1
                    /\ Len(obs[1]) = Cardinality(S)
                    /\ SetOf(obs[1]) = S
                    /\ \A i \in 1..(Len(obs[1]) - 1) : obs[1][i][1] < obs[1][i+1][1]
(* an extended map keeps the entries that no new entry replaces *)
OldEntries(h, s) == LET ks == Keys(SetOf(s)) IN {<<K(h[i]), i - 1001>> : i \in {j \in 1..Len(h) : K(h[j]) \notin ks}}

Build(e) == /\ All(e.s, FirstWins(e.xs))
            /\ All(e.e, Extend(SetOf(e.have), e.xs))
            /\ AllPairs(e.m, LastPositions(e.xs))
            /\ AllPairs(e.me, OldEntries(e.have, e.xs) \cup LastPositions(e.xs))

(* the number of elements alive when p elements have been handed out, d of   *)
(* them distinct                                                             *)
Bound(d) == 2 * d + 40
(* memory, in elements: a buffer that doubles, the old one next to the new   *)
(* one while it grows, scratch space for sorting; the result keeps a buffer  *)
Peak(d) == 8 * d + 128
Kept(d) == 4 * d + 64
Distinct(e, p) == IF e.t = "periodic" THEN Min(p, e.d)
                  ELSE Cardinality({e.xs[i] : i \in 1..p})
Storage(e) == \A r \in 1..Len(e.runs) :
                 LET run == e.runs[r] IN
                 /\ \A c \in 1..Len(run.pts) : /\ run.pts[c][2] >= 0
                                               /\ run.pts[c][2] <= Bound(Distinct(e, run.pts[c][1]))
                 /\ run.len = Distinct(e, e.n)       \* the result,
                 /\ run.after = run.len              \* which is all that is left alive,
                 /\ run.end = 0                      \* and nothing once it is dropped
                 /\ run.peak >= 0 /\ run.peak <= Peak(Distinct(e, e.n))
                 /\ run.kept <= Kept(Distinct(e, e.n))

Ok == IF What = "build" THEN Build(Trace[l]) ELSE Storage(Trace[l])
=============================================================================
