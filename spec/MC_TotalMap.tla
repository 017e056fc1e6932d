---------------------------- MODULE MC_TotalMap ----------------------------
EXTENDS TotalRep
=============================================================================
