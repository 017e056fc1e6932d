------------------------------ MODULE MC_Joins ------------------------------
EXTENDS JoinAlg
=============================================================================
