------------------------------ MODULE TotalSet ------------------------------
(* A few named sets with negation, one action per public call.               *)
EXTENDS TotalSem

CONSTANT Regs
VARIABLES n, regs, ret

InitWith(size) == n = size /\ regs = [i \in Regs |-> {}] /\ ret = <<>>
PutS(i, S) == regs' = [regs EXCEPT ![i] = S] /\ ret' = <<>> /\ UNCHANGED n
Rel(i, j) == <<B(regs[i] \subseteq regs[j]), B(regs[j] \subseteq regs[i]), B(regs[i] \cap regs[j] = {}), B(regs[i] = regs[j])>>

Do(e) == CASE e.o = "const"   -> PutS(e.i, IF e.x = 1 THEN TAll(n) ELSE {})
           [] e.o = "fromset" -> PutS(e.i, SetOf(e.xs))
           [] e.o = "insert"  -> PutS(e.i, regs[e.i] \cup {e.x})
           [] e.o = "remove"  -> PutS(e.i, regs[e.i] \ {e.x})
           [] e.o = "not"     -> PutS(e.i, TNot(n, regs[e.i]))
           [] e.o = "not3"    -> PutS(e.k, TNot(n, regs[e.i]))
           [] e.o = "clone"   -> PutS(e.i, regs[e.j])
           [] e.o = "shrink"  -> PutS(e.i, regs[e.i])
           [] e.o \in {"u", "i", "d", "x"} -> PutS(e.i, TSetOp(e.o, regs[e.i], regs[e.j]))
           [] e.o = "u3" -> PutS(e.k, TSetOp("u", regs[e.i], regs[e.j]))
           [] e.o = "i3" -> PutS(e.k, TSetOp("i", regs[e.i], regs[e.j]))
           [] e.o = "d3" -> PutS(e.k, TSetOp("d", regs[e.i], regs[e.j]))
           [] e.o = "x3" -> PutS(e.k, TSetOp("x", regs[e.i], regs[e.j]))
           [] e.o = "relate" -> ret' = Rel(e.i, e.j) /\ UNCHANGED <<n, regs>>

TypeOK == \A i \in Regs : regs[i] \subseteq 0..n
=============================================================================
