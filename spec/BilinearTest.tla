---------------------------- MODULE BilinearTest ----------------------------
(***************************************************************************)
(* The two tests of a bilinear cell, CellSome (there is a critical point)  *)
(* and CellNone (there is none), against first principles on all small     *)
(* integer vectors at the corners.                                         *)
(*  - They are never both true.                                            *)
(*  - CellNone: at no point of a rational grid do both components vanish,  *)
(*    and there is no corner at which they do.                             *)
(*  - CellSome: with y eliminated, a root must exist: the resultant        *)
(*    q(x) = u0(x) v1(x) - v0(x) u1(x) of u = u0 + u1 y, v = v0 + v1 y has *)
(*    a zero in [0, 1]; the same with the roles of x and y exchanged.      *)
(*  - Both are unchanged when the axes or the components are exchanged, or *)
(*    a component is negated.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VF == INSTANCE VectorField
XR == INSTANCE ExactReal
CONSTANTS B, First, Depth, K        \* components in -B..B; those of the first corner in First
VARIABLE w                          \* vectors at the corners (0,0), (1,0), (0,1), (1,1), given one by one
Vals == (0 - B)..B
Full == Len(w) = 4
Init == w = << >>
Next == ~ Full /\ \E x \in (IF w = << >> THEN First ELSE Vals \X Vals) : w' = Append(w, x)
Spec == Init /\ [][Next]_w

Comp(f, c) == [i \in 1..4 |-> f[i][c]]
Num(a) == [i \in 1..4 |-> XR!IntNum(a[i])]
Neg(a) == [i \in 1..4 |-> 0 - a[i]]
Swap(a) == <<a[1], a[3], a[2], a[4]>>
Some(u, v) == VF!CellSome(Num(u), Num(v), 0, 0, 1, Depth, K)
None(u, v) == VF!CellNone(Num(u), Num(v), 0, 0, 1, Depth + 1)
At(a, x, y, n) == ((n - x) * (n - y) * a[1]) + (x * (n - y) * a[2]) + ((n - x) * y * a[3]) + (x * y * a[4])
GridZero(u, v, n) == \E x \in 0..n : \E y \in 0..n : At(u, x, y, n) = 0 /\ At(v, x, y, n) = 0
(* a + b x + c x^2 has a zero in [0, 1] *)
RootIn01(a, b, c) == \/ a = 0 \/ (a + b + c) = 0
                     \/ (a < 0) # ((a + b + c) < 0)
                     \/ /\ c # 0 /\ (b * b - 4 * a * c) >= 0
                        /\ (IF c > 0 THEN (0 - b) >= 0 /\ (0 - b) <= 2 * c ELSE b >= 0 /\ b <= 0 - 2 * c)
(* u = (p0 + p1 x) + (p2 + p3 x) y *)
Coef(a) == <<a[1], a[2] - a[1], a[3] - a[1], a[4] - a[3] - a[2] + a[1]>>
Resultant(u, v) == LET p == Coef(u)  q == Coef(v) IN
  RootIn01(p[1] * q[3] - q[1] * p[3], (p[1] * q[4]) + (p[2] * q[3]) - (q[1] * p[4]) - (q[2] * p[3]), p[2] * q[4] - q[2] * p[4])
Sound == Full =>
  LET u == Comp(w, 1)  v == Comp(w, 2)  s == Some(u, v)  n == None(u, v) IN
  /\ ~ (s /\ n)
  /\ n => ~ GridZero(u, v, 6) /\ ~ GridZero(u, v, 4)
  /\ s => Resultant(u, v) /\ Resultant(Swap(u), Swap(v))
Symmetric == Full =>
  LET u == Comp(w, 1)  v == Comp(w, 2)  s == Some(u, v)  n == None(u, v) IN
  /\ Some(Swap(u), Swap(v)) = s /\ None(Swap(u), Swap(v)) = n
  /\ Some(v, u) = s /\ None(v, u) = n
  /\ Some(Neg(u), v) = s /\ None(Neg(u), v) = n
(* most cells are decided one way or the other *)
Decided == ~ Full \/ Some(Comp(w, 1), Comp(w, 2)) \/ None(Comp(w, 1), Comp(w, 2))
=============================================================================
