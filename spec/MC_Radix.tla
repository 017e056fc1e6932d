------------------------------ MODULE MC_Radix ------------------------------
EXTENDS RadixAlg
QuickKeys == {<<>>, <<0>>, <<0, 0>>, <<0, 1>>, <<1>>, <<0, 1, 0>>}
ThoroughKeys == QuickKeys \cup {<<0, 0, 1>>, <<1, 0>>}
=============================================================================
