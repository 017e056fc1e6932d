------------------------------ MODULE MC_Merge ------------------------------
EXTENDS Merge
=============================================================================
