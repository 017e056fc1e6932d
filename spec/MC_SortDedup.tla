---------------------------- MODULE MC_SortDedup ----------------------------
EXTENDS SortDedup
=============================================================================
