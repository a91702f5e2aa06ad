---- MODULE MCTetCp ----
EXTENDS TetCp
Vals1 == {-1, 0, 1}
Vals2 == {-1, 1, 2}
Vals3 == {-1, 2}
Vals4 == {-1, 0, 1, 2}
Vals5 == {-2, 1, 3}
Vals6 == {-1, 0, 3}
Vals7 == {-1, 0, 2}
====
