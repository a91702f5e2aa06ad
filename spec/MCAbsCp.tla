---- MODULE MCAbsCp ----
EXTENDS AbsCp
QVals == {-2, -1, 0, 1, 2}
DVals == {-3, -2, -1, 0, 1, 2, 3}
QOrders == {<<1, 2, 3>>}
DOrders == {<<1, 2, 3>>, <<1, 3, 2>>}
====
