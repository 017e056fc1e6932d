-------------------------------- MODULE Text --------------------------------
(* What the text of a collection must say: a mark if it is a complement,     *)
(* then its elements or entries in order, then the default if there is one.  *)
EXTENDS Integers, Sequences

RECURSIVE Flat(_)
Flat(ps) == IF ps = <<>> THEN <<>> ELSE <<ps[1][1], ps[1][2]>> \o Flat(Tail(ps))
Said(t, a, neg, d) == CASE t = "set" -> <<neg>> \o a
                        [] t = "map" -> <<0>> \o Flat(a) \o d
=============================================================================
