----------------------------- MODULE MC_Archive -----------------------------
EXTENDS Archive
=============================================================================
