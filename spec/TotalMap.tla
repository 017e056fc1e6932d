------------------------------ MODULE TotalMap ------------------------------
(* A few named total maps, one action per public call.                       *)
EXTENDS TotalSem

CONSTANT Regs
VARIABLES n, regs, ret

InitWith(size) == n = size /\ regs = [i \in Regs |-> Const(size, 0)] /\ ret = <<>>
PutM(i, f) == regs' = [regs EXCEPT ![i] = f] /\ ret' = <<>> /\ UNCHANGED n

Do(e) == CASE e.o = "const" -> PutM(e.i, Const(n, e.x))
           [] e.o = "zero"  -> PutM(e.i, Const(n, 0))
           [] e.o = "one"   -> PutM(e.i, Const(n, 1))
           [] e.o = "minv"  -> PutM(e.i, Const(n, 0))
           [] e.o = "maxv"  -> PutM(e.i, Const(n, 96))
           [] e.o = "new"   -> PutM(e.i, FromMap(n, LastPairs(e.ps), e.x))
           [] e.o = "neg"   -> PutM(e.i, [k \in 0..n |-> Neg(regs[e.i][k])])
           [] e.o = "mapvalues" -> PutM(e.k, [k \in 0..n |-> MapValue(e.m, regs[e.i][k])])
           [] e.o = "squash" -> PutM(e.k, [k \in 0..n |-> regs[e.i][k] % 3])
           [] e.o = "clone" -> PutM(e.i, regs[e.j])
           [] e.o \in {"add", "sub", "mul", "div", "sup", "inf", "combine"} ->
                 PutM(e.k, TMapOp(e.o, regs[e.i], regs[e.j], e.m))

TypeOK == \A i \in Regs : DOMAIN regs[i] = 0..n
=============================================================================
