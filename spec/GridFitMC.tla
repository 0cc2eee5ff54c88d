----------------------------- MODULE GridFitMC -----------------------------
EXTENDS GridFit, TLC
TabsQ == {<<1, 1, 1, 0, 5>>, <<2, 3, 1, 1, 7>>, <<0, 0, 1, 0, 2>>}
TabsT == {<<a, b, c, d, m>> : a \in 0..2, b \in 0..2, c \in 0..1, d \in 0..1, m \in {3, 5}}
=============================================================================
