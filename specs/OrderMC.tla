------------------------------- MODULE OrderMC -------------------------------
EXTENDS Order
MCCell == <<<<6, 0, 0>>, <<2, 5, 0>>, <<0, 0, 4>>>>
MCSites == <<<<0, 0, 0>>, <<3, 2, 2>>>>
MCSc == <<2, 1, 1>>
MCDisps == {<<1, 0, 0>>, <<0, -1, 0>>}
MCWraps == {<<0, 0, 0>>, <<-2, 1, 0>>}
=============================================================================
