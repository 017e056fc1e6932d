---------------------------- MODULE MC_TotalSet ----------------------------
EXTENDS TotalRep
=============================================================================
