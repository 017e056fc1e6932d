----------------------------- MODULE MC_Persist -----------------------------
EXTENDS Persist
(* a bounded number of places *)
Small == Len(file) <= 9
=============================================================================
