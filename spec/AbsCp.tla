------------------------------- MODULE AbsCp -------------------------------
(***************************************************************************)
(* The derived bound of the absolute methods (sz3_abs, online_abs): the    *)
(* vertices of a triangle are compressed one after the other, each within  *)
(* the bound derived from the two others as they are by then.  One         *)
(* triangle suffices: a vertex takes the least bound of its triangles.     *)
(* Values are integers; Unit is the value 1, Eb the requested bound.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE IntGeo
CONSTANTS Unit, Vals, Eb, Orders,
          Variant     \* "code", or a wrong derivation that the model must refute
VARIABLES u, v, pos, order, had, moved
vars == <<u, v, pos, order, had, moved>>

(* d is strictly below |C| / (|A| + |B|) *)
Below(d, A, B, C) == LET s == Abs(A) + Abs(B) IN
  IF Variant = "nonstrict" THEN d * s <= Abs(C) ELSE (IF s = 0 THEN C # 0 ELSE d * s < Abs(C))
(* may the third of three vertices move by at most d in each component?
   p, q are the two others *)
Fraction(M, Mi) == Mi = 0 \/ (Sgn(M) = Sgn(Mi) /\ Abs(M) >= Abs(Mi))      \* Mi = 0 or M / Mi >= 1
MayMove(d, u0, u1, u2, v0, v1, v2) ==
  LET M0 == u2 * v0 - u0 * v2
      M1 == u1 * v2 - u2 * v1
      M2 == u0 * v1 - u1 * v0
      M == M0 + M1 + M2
      f1 == Fraction(M, M0)  f2 == Fraction(M, M1)  f3 == Fraction(M, M2)
      b1 == Below(d, v0, u0, M0) /\ (Variant = "half" \/ Below(d, v1, u1, M1 + M2))
      b2 == Below(d, v1, u1, M1) /\ (Variant = "half" \/ Below(d, v0, u0, M0 + M2))
      b3 == Below(d, v0 - v1, u1 - u0, M0 + M1)
  IN IF M = 0 \/ (f1 /\ f2 /\ f3 /\ Variant # "present") THEN d = 0
     ELSE IF Variant = "any" THEN (~ f1 /\ Below(d, v0, u0, M0)) \/ (~ f2 /\ b2) \/ (~ f3 /\ b3) \/ d = 0
     ELSE (~ f1 /\ b1) \/ (~ f2 /\ b2) \/ (~ f3 /\ b3) \/ d = 0
          \/ (f1 /\ f2 /\ f3 /\ Variant = "present" /\ b1)

(* the derivation and the answer do not change under reflection of a component and exchange of both: one vertex is enough *)
Init == /\ u \in [1..3 -> {Unit * x : x \in Vals}] /\ v \in [1..3 -> {Unit * x : x \in Vals}]
        /\ u[1] >= v[1] /\ v[1] >= 0
        /\ pos = 1 /\ order \in Orders
        /\ had = Has(u, v) /\ moved = FALSE
(* the derived bound, rounded down *)
RECURSIVE Largest(_, _, _, _, _, _, _)
Largest(d, u0, u1, u2, v0, v1, v2) == IF d = 0 \/ MayMove(d, u0, u1, u2, v0, v1, v2) THEN d ELSE Largest(d - 1, u0, u1, u2, v0, v1, v2)
Step == /\ pos <= 3
        /\ LET z == order[pos]
               a == order[(pos % 3) + 1]  b == order[((pos + 1) % 3) + 1] IN
           LET d == Largest(Eb, u[a], u[b], u[z], v[a], v[b], v[z]) IN
           \E du, dv \in (0 - d)..d :
             \* online_abs: a zero component makes the vertex lossless; sz3 does not ask
             /\ u' = [u EXCEPT ![z] = @ + du] /\ v' = [v EXCEPT ![z] = @ + dv]
             /\ moved' = (moved \/ du # 0 \/ dv # 0)
        /\ pos' = pos + 1 /\ UNCHANGED <<order, had>>
Spec == Init /\ [][Step]_vars

(* after every vertex, not only at the end *)
CpKept == Has(u, v) = had
VerticesExact == had => ~ moved
(* the bound is worth having: something moves without a critical point *)
NotUseless == ~ (pos = 4 /\ moved /\ \A i \in 1..3 : u[i] % Unit # 0 /\ v[i] % Unit # 0)
=============================================================================
