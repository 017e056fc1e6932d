---------------------------- MODULE MC_CowLazy -----------------------------
EXTENDS CowLazy
(* a top node with two children, the first of which has one more *)
KidsOf(p) == CASE p = <<>> -> 2 [] p = <<1>> -> 1 [] OTHER -> 0
TheKids == [p \in {<<>>, <<1>>, <<2>>, <<1, 1>>} |-> KidsOf(p)]
=============================================================================
