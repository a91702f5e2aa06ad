------------------------------- MODULE IntGeo -------------------------------
(* Triangles and tetrahedra with integer vectors at their vertices: the     *)
(* definitions of VectorField, evaluated on integers for the algorithm      *)
(* models.  IntGeoTest checks that both agree.                               *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
(* minors of a triangle with vectors (u[i], v[i]) *)
Minor(u, v, p, q) == u[p] * v[q] - u[q] * v[p]
Minors(u, v) == << Minor(u, v, 3, 1), Minor(u, v, 2, 3), Minor(u, v, 1, 2) >>
Has(u, v) == LET m == Minors(u, v) IN
  /\ ~ \E a, b \in 1..3 : m[a] > 0 /\ m[b] < 0
  /\ \E a \in 1..3 : m[a] # 0
(* a half-plane side of the linear field: Jacobian from differences along x and y;
   orientation o = 1: vertices (0,0), (0,1), (1,1) (x, y); o = 2: (0,0), (1,0), (1,1) *)
Jac(u, v, o) == IF o = 1 THEN << u[3] - u[2], u[2] - u[1], v[3] - v[2], v[2] - v[1] >>
                ELSE << u[2] - u[1], u[3] - u[2], v[2] - v[1], v[3] - v[2] >>
Kind(u, v, o) ==
  LET j == Jac(u, v, o)
      d == j[1] * j[4] - j[2] * j[3]  t == j[1] + j[4]  di == t * t - 4 * d
  IN IF d < 0 THEN "saddle" ELSE IF d = 0 THEN "singular" ELSE IF t = 0 THEN "center"
     ELSE IF di < 0 THEN (IF t > 0 THEN "repelling focus" ELSE "attracting focus")
     ELSE IF di = 0 THEN (IF t > 0 THEN "repelling star" ELSE "attracting star")
     ELSE IF t > 0 THEN "repelling node" ELSE "attracting node"
=============================================================================
