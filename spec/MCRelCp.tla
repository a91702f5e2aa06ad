---- MODULE MCRelCp ----
EXTENDS RelCp
V1 == {-1, 0, 1}
V2 == {-2, -1, 0, 1, 2}
V3 == {-3, -1, 0, 1, 3}
====
