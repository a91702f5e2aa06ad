-------------------------------- MODULE TetCp --------------------------------
(***************************************************************************)
(* The derived bounds of the methods on tetrahedra.                         *)
(* Mode "online": the last vertex moves, every component Unit * x to        *)
(* (Unit + e) * x with |e| / Unit within the bound derived from all four.    *)
(* Mode "abs": the last vertex moves, every component by at most the bound. *)
(* Mode "offline": all four vertices move, within one bound derived from    *)
(* the original; as every quantity is linear in each component, moves by     *)
(* the whole bound in either direction decide.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE IntGeo
CONSTANTS Unit, Vals, E, Mode, Variant, Few
VARIABLES u, v, w, pos, had, bound
vars == <<u, v, w, pos, had, bound>>

Fine == 8 * Unit
SameDir(s) == \/ \A i \in 1..4 : s[i] > 0
              \/ \A i \in 1..4 : s[i] < 0

(* the cofactors of the components of vertex 4, as in the code *)
U3(a, b, c) == << b[3]*c[2] - b[2]*c[3], b[1]*c[3] - b[3]*c[1], b[2]*c[1] - b[1]*c[2] >>
V3(a, b, c) == << a[2]*c[3] - a[3]*c[2], a[3]*c[1] - a[1]*c[3], a[1]*c[2] - a[2]*c[1] >>
W3(a, b, c) == << a[3]*b[2] - a[2]*b[3], a[1]*b[3] - a[3]*b[1], a[2]*b[1] - a[1]*b[2] >>
Det3(a, b, c) == a[1]*b[2]*c[3] - a[1]*b[3]*c[2] + a[2]*b[3]*c[1] - a[2]*b[1]*c[3] + a[3]*b[1]*c[2] - a[3]*b[2]*c[1]
Minors4(a, b, c) ==
  LET x == U3(a, b, c)  y == V3(a, b, c)  z == W3(a, b, c) IN
  << x[1]*a[4] + y[1]*b[4] + z[1]*c[4], x[2]*a[4] + y[2]*b[4] + z[2]*c[4],
     x[3]*a[4] + y[3]*b[4] + z[3]*c[4], Det3(a, b, c) >>
Has4(a, b, c) == LET m == Minors4(a, b, c) IN
  /\ ~ \E i, j \in 1..4 : m[i] > 0 /\ m[j] < 0
  /\ \E i \in 1..4 : m[i] # 0
(* the code's M / Mi > 1 *)
Flag(M, Mi) == Mi = 0 \/ (Sgn(M) = Sgn(Mi) /\ Abs(M) > Abs(Mi))

(* relative: e (|A| + |B| + |C|) <= |A + B + C + D| Fine, and 1 when nothing moves *)
On(e, A, B, C, D) == LET s == Abs(A) + Abs(B) + Abs(C) IN IF s = 0 THEN e <= Fine ELSE e * s <= Abs(A + B + C + D) * Fine
OnlineMayMove(e, a, b, c) ==
  LET x == U3(a, b, c)  y == V3(a, b, c)  z == W3(a, b, c)
      A == [i \in 1..3 |-> x[i] * a[4]]  B == [i \in 1..3 |-> y[i] * b[4]]  C == [i \in 1..3 |-> z[i] * c[4]]
      m == Minors4(a, b, c)  M == m[1] + m[2] + m[3] + m[4]
      Others(i) == LET j == (i % 3) + 1  k == ((i + 1) % 3) + 1 IN On(e, A[j] + A[k], B[j] + B[k], C[j] + C[k], m[4])
  IN \/ e = 0
     \/ M = 0 /\ (SameDir(a) \/ SameDir(b) \/ SameDir(c)) /\ e <= Fine
     \/ /\ M # 0
        /\ \/ \E i \in 1..3 : ~ Flag(M, m[i]) /\ On(e, A[i], B[i], C[i], 0) /\ (Variant = "half" \/ Others(i))
           \/ ~ Flag(M, m[4]) /\ On(e, A[1] + A[2] + A[3], B[1] + B[2] + B[3], C[1] + C[2] + C[3], 0)

(* absolute: e (|A| + |B| + |C|) <= |D| *)
Ab(e, A, B, C, D) == LET s == Abs(A) + Abs(B) + Abs(C) IN IF s = 0 THEN (D # 0 \/ e = 0) ELSE e * s <= 8 * Abs(D)
AbsMayMove(e, a, b, c) ==
  LET x == U3(a, b, c)  y == V3(a, b, c)  z == W3(a, b, c)
      m == Minors4(a, b, c)  M == m[1] + m[2] + m[3] + m[4]
      Others(i) == LET j == (i % 3) + 1  k == ((i + 1) % 3) + 1 IN Ab(e, x[j] + x[k], y[j] + y[k], z[j] + z[k], M - m[i])
  IN \/ e = 0
     \/ /\ M # 0
        /\ \/ \E i \in 1..3 : ~ Flag(M, m[i]) /\ Ab(e, x[i], y[i], z[i], m[i]) /\ (Variant = "half" \/ Others(i))
           \/ ~ Flag(M, m[4]) /\ Ab(e, x[1] + x[2] + x[3], y[1] + y[2] + y[3], z[1] + z[2] + z[3], m[1] + m[2] + m[3])

(* offline: sums of the positive and of the negative terms; e below (root(p) - root(n)) / (root(p) + root(n)), cubic roots *)
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE s[1] + Sum(Tail(s))
Pos(s) == Sum([i \in DOMAIN s |-> Max(s[i], 0)])
Neg(s) == Sum([i \in DOMAIN s |-> Max(0 - s[i], 0)])
Power(x) == IF Variant = "square" THEN x * x ELSE x * x * x
Off(e, t) == LET p == Pos(t)  n == Neg(t) IN
  IF p = 0 \/ n = 0 THEN e <= Fine ELSE e <= Fine /\ Power(Fine + e) * Min(p, n) <= Power(Fine - e) * Max(p, n)
Terms(a, b, c) ==
  << << 0 - a[4]*b[2]*c[3], a[4]*b[3]*c[2], a[2]*b[4]*c[3], 0 - a[3]*b[4]*c[2], 0 - a[2]*b[3]*c[4], a[3]*b[2]*c[4] >>,
     << 0 - a[4]*b[3]*c[1], a[4]*b[1]*c[3], a[3]*b[4]*c[1], 0 - a[1]*b[4]*c[3], a[1]*b[3]*c[4], 0 - a[3]*b[1]*c[4] >>,
     << 0 - a[4]*b[1]*c[2], a[4]*b[2]*c[1], a[1]*b[4]*c[2], 0 - a[2]*b[4]*c[1], 0 - a[1]*b[2]*c[4], a[2]*b[1]*c[4] >>,
     << a[1]*b[2]*c[3], 0 - a[1]*b[3]*c[2], a[2]*b[3]*c[1], 0 - a[2]*b[1]*c[3], a[3]*b[1]*c[2], 0 - a[3]*b[2]*c[1] >> >>
OfflineMayMove(e, a, b, c) ==
  LET t == Terms(a, b, c)
      m == [i \in 1..4 |-> Sum(t[i])]  M == m[1] + m[2] + m[3] + m[4]
      Rest(i) == LET j == (i % 4) + 1  k == (j % 4) + 1  l == (k % 4) + 1 IN t[j] \o t[k] \o t[l]
  IN \/ e = 0
     \/ M # 0 /\ (\A i \in 1..4 : Flag(M, m[i])) /\ (SameDir(a) \/ SameDir(b) \/ SameDir(c)) /\ e <= Fine
     \/ M # 0 /\ \E i \in 1..4 : ~ Flag(M, m[i]) /\ Off(e, t[i]) /\ (Variant = "half" \/ Off(e, Rest(i)))

MayMove(e, a, b, c) == CASE Mode = "online" -> OnlineMayMove(e, a, b, c)
                         [] Mode = "abs" -> AbsMayMove(e, a, b, c)
                         [] Mode = "offline" -> OfflineMayMove(e, a, b, c)
(* the largest e below the bound, in steps of 1/8; a move by exactly the bound could make a quantity zero *)
RECURSIVE Largest(_, _, _, _)
Largest(e, a, b, c) == IF e = 0 \/ MayMove(8 * e + 1, a, b, c) THEN e ELSE Largest(e - 1, a, b, c)
Reach(e) == IF Mode = "offline" THEN {0 - e, e} ELSE (0 - e)..e

(* symmetric cases once: signs of a component, exchange of components, order of the three other vertices *)
Init == /\ u \in [1..4 -> {Unit * x : x \in Vals}] /\ v \in [1..4 -> {Unit * x : x \in Vals}] /\ w \in [1..4 -> {Unit * x : x \in Vals}]
        /\ u[4] >= v[4] /\ v[4] >= w[4] /\ w[4] >= 0
        /\ Few => w[4] = 0 /\ v[4] = 0 /\ u[4] > 0 /\ v[1] >= v[2]
        /\ u[1] >= u[2] /\ u[2] >= u[3]
        /\ had = Has4(u, v, w)
        /\ bound = LET S(f) == IF Mode = "abs" THEN f ELSE [i \in 1..4 |-> f[i] \div Unit] IN Largest(E, S(u), S(v), S(w))   \* relative bounds do not depend on the scale
        /\ pos = IF Mode = "offline" THEN 1 ELSE 4
Moved(x, d) == IF Mode = "abs" THEN x + d ELSE x + d * (x \div Unit)
Steps(x, e) == IF x = 0 /\ Mode # "abs" THEN {0} ELSE Reach(e)
Step == /\ pos <= 4 /\ bound > 0
        /\ \E du \in Steps(u[pos], bound), dv \in Steps(v[pos], bound), dw \in Steps(w[pos], bound) :
             /\ u' = [u EXCEPT ![pos] = Moved(@, du)] /\ v' = [v EXCEPT ![pos] = Moved(@, dv)] /\ w' = [w EXCEPT ![pos] = Moved(@, dw)]
        /\ pos' = pos + 1 /\ UNCHANGED <<had, bound>>
Spec == Init /\ [][Step]_vars
CpKept == pos = 5 => Has4(u, v, w) = had
=============================================================================
