------------------------------ MODULE MC_VecRep ------------------------------
EXTENDS VecRep
=============================================================================
