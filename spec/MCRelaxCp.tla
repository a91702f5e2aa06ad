---- MODULE MCRelaxCp ----
EXTENDS RelaxCp
V1 == {-1, 0, 1}
VQ == {-1, 1}
====
