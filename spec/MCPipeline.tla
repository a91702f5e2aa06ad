---- MODULE MCPipeline ----
EXTENDS Pipeline
QV == {-5, 0, 1, 4}
DV == {-9, -2, 0, 1, 3, 6}
====
