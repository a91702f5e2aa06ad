------------------------------- MODULE RelCp -------------------------------
(***************************************************************************)
(* The derived bounds of the relative methods.                             *)
(* Mode "online" (online, online_log): vertices one after the other, each  *)
(* within the bound derived from the two others as they are by then.       *)
(* Mode "offline" (offline, offline_log): one bound for the three vertices *)
(* of a triangle, derived from the original; all move at once.             *)
(* A value Unit * x may move to (Unit + e) * x with |e| / Unit within the  *)
(* bound; all quantities stay integers.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE IntGeo
CONSTANTS Unit, Vals, E, Mode, Orients, Variant
VARIABLES u, v, pos, orient, had, kind, bound, moved
vars == <<u, v, pos, orient, had, kind, bound, moved>>

Fine == 8 * Unit
(* every cutoff "e / Fine does not exceed the bound" below is multiplied out *)
(* online: e (|A| + |B|) <= |A + B + C| Fine, with 0 for |A| + |B| = 0 *)
On(e, A, B, C) == LET s == Abs(A) + Abs(B) IN IF s = 0 THEN e = 0 ELSE e * s <= Abs(A + B + C) * Fine
(* offline: P, N the sums of the positive and negative terms;
   e <= (root(P) - root(N)) / (root(P) + root(N)), as ((Fine + e)/(Fine - e))^degree <= max/min *)
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE s[1] + Sum(Tail(s))
Pos(s) == Sum([i \in DOMAIN s |-> Max(s[i], 0)])
Neg(s) == Sum([i \in DOMAIN s |-> Max(0 - s[i], 0)])
Off(e, terms, degree) ==
  LET p == Pos(terms)  n == Neg(terms) IN
  IF p = 0 \/ n = 0 THEN e <= Fine
  ELSE IF degree = 1 THEN (Fine + e) * Min(p, n) <= (Fine - e) * Max(p, n)
  ELSE e <= Fine /\ (Fine + e) * (Fine + e) * Min(p, n) <= (Fine - e) * (Fine - e) * Max(p, n)

Fraction(M, Mi) == Mi = 0 \/ (Sgn(M) = Sgn(Mi) /\ Abs(M) >= Abs(Mi))

(* adjugate of the reference triangle: c0 (x1 y2 ...) as in the code, for both orientations with vertex 3 last *)
RefX(o) == IF o = 1 THEN <<0, 0, 1>> ELSE <<0, 1, 1>>
RefY(o) == IF o = 1 THEN <<0, 1, 1>> ELSE <<0, 0, 1>>
Adj(x, y) == LET d == (x[1] - x[3]) * (y[2] - y[3]) - (x[2] - x[3]) * (y[1] - y[3]) IN
             << (y[2] - y[3]) * d, (0 - (y[1] - y[3])) * d, (0 - (x[2] - x[3])) * d, (x[1] - x[3]) * d >>     \* d is 1 or -1
Perm(s, z) == << s[(z % 3) + 1], s[((z + 1) % 3) + 1], s[z] >>

(* online: may the vertex 3 move by e, given that a critical point is present? *)
KindMayMove(e, a, b, c) ==      \* a, b: u and v of the three vertices, c: adjugate
  LET m == c[2] * c[3] - c[1] * c[4]
      det == a[1]*b[2] - a[1]*b[3] + a[2]*b[3] - a[2]*b[1] + a[3]*b[1] - a[3]*b[2]
      cc == (0 - m) * det
      A == (0 - c[1]) * a[3] - c[2] * a[3]
      B == (0 - c[3]) * b[3] - c[4] * b[3]
      C == c[1]*a[1] + c[2]*a[2] + c[3]*b[1] + c[4]*b[2]
      D == (0 - m) * (a[3]*b[1] - a[3]*b[2])  EE == (0 - m) * (a[2]*b[3] - a[1]*b[3])  F == (0 - m) * (a[1]*b[2] - a[2]*b[1])
      C2 == C + A + B   F2 == F + D + EE
      delta == C2 * C2 - 4 * F2
      lin == Abs(2*A*C2 - 4*D) + Abs(2*B*C2 - 4*EE)
      q == (Abs(A) + Abs(B)) * (Abs(A) + Abs(B))
  IN IF cc <= 0 THEN On(e, a[3]*b[1] - a[3]*b[2], a[2]*b[3] - a[1]*b[3], a[1]*b[2] - a[2]*b[1])
     ELSE /\ On(e, A, B, C)
          /\ IF delta = 0 THEN e = 0
             ELSE IF Variant = "nodisc" THEN TRUE
             ELSE IF delta > 0 THEN (IF lin = 0 THEN TRUE ELSE e * lin <= delta * Fine)
             ELSE q * e * e + lin * e * Fine + delta * Fine * Fine <= 0

OnlineMayMove(e, a, b, c) ==
  LET M0 == a[3]*b[1] - a[1]*b[3]  M1 == a[2]*b[3] - a[3]*b[2]  M2 == a[1]*b[2] - a[2]*b[1]
      M == M0 + M1 + M2
      f1 == Fraction(M, M0)  f2 == Fraction(M, M1)  f3 == Fraction(M, M2)
      k0 == On(e, a[3]*b[1], (0 - a[1])*b[3], 0)
      k1 == On(e, (0 - a[3])*b[2], a[2]*b[3], 0)
  IN \/ e = 0
     \/ M # 0 /\ f1 /\ f2 /\ f3 /\ k0 /\ k1 /\ KindMayMove(e, a, b, c)
     \/ M # 0 /\ ~ f1 /\ k0 /\ (Variant = "half" \/ On(e, (0 - a[3])*b[2], a[2]*b[3], M2))
     \/ M # 0 /\ ~ f2 /\ k1 /\ (Variant = "half" \/ On(e, a[3]*b[1], (0 - a[1])*b[3], M2))
     \/ M # 0 /\ ~ f3 /\ On(e, a[3]*b[1] - a[3]*b[2], a[2]*b[3] - a[1]*b[3], 0)

(* all products of two members of a sequence *)
Squares(s) == [ k \in 1..(Len(s) * Len(s)) |-> s[((k - 1) \div Len(s)) + 1] * s[((k - 1) % Len(s)) + 1] ]
OfflineMayMove(e, a, b, c) ==
  LET M0 == a[3]*b[1] - a[1]*b[3]  M1 == a[2]*b[3] - a[3]*b[2]  M2 == a[1]*b[2] - a[2]*b[1]
      M == M0 + M1 + M2
      f1 == Fraction(M, M0)  f2 == Fraction(M, M1)  f3 == Fraction(M, M2)
      t0 == << a[3]*b[1], (0 - a[1])*b[3] >>
      t1 == << a[2]*b[3], (0 - a[3])*b[2] >>
      t2 == << a[1]*b[2], (0 - a[2])*b[1] >>
      k0 == Off(e, t0, 2) /\ Off(e, t2 \o t1, 2)
      k1 == Off(e, t1, 2) /\ Off(e, t2 \o t0, 2)
      k2 == Off(e, t2, 2) /\ Off(e, t1 \o t0, 2)
      m == c[2] * c[3] - c[1] * c[4]
      coeff == << c[1]*a[1], c[2]*a[2], (0 - (c[2] + c[1]))*a[3], c[3]*b[1], c[4]*b[2], (0 - (c[4] + c[3]))*b[3] >>
      cc == (0 - m) * M
      dterms == << 0 - 4*m*a[2]*b[1], 4*m*a[3]*b[1], 4*m*a[1]*b[2], 0 - 4*m*a[3]*b[2], 0 - 4*m*a[1]*b[3], 4*m*a[2]*b[3] >>
      det == << a[1]*b[2], 0 - a[1]*b[3], a[2]*b[3], 0 - a[2]*b[1], a[3]*b[1], 0 - a[3]*b[2] >>
      kinds == Off(e, coeff, 1) /\ Off(e, det, 2) /\ (cc < 0 \/ (cc > 0 /\ (Variant = "nodisc" \/ Off(e, Squares(coeff) \o dterms, 2))))
  IN \/ e = 0
     \/ M # 0 /\ f1 /\ f2 /\ f3 /\ k0 /\ k1 /\ k2 /\ kinds
     \/ M # 0 /\ ~ f1 /\ (IF Variant = "half" THEN Off(e, t0, 2) ELSE k0)
     \/ M # 0 /\ ~ f2 /\ (IF Variant = "half" THEN Off(e, t1, 2) ELSE k1)
     \/ M # 0 /\ ~ f3 /\ k2

MayMove(e, a, b, c) == IF Mode = "online" THEN OnlineMayMove(e, a, b, c) ELSE OfflineMayMove(e, a, b, c)
(* the largest e with e / Unit below the bound (moving exactly by it can make a quantity zero), in steps of 1 / Fine *)
RECURSIVE Largest(_, _, _, _)
Largest(e, a, b, c) == IF e = 0 \/ MayMove(8 * e + 1, a, b, c) THEN e ELSE Largest(e - 1, a, b, c)

Init == /\ u \in [1..3 -> {Unit * x : x \in Vals}] /\ v \in [1..3 -> {Unit * x : x \in Vals}]
        /\ u[1] >= 0
        /\ orient \in Orients
        /\ pos = 1 /\ moved = FALSE
        /\ had = Has(u, v) /\ kind = IF had THEN Kind(u, v, orient) ELSE "none"
        /\ bound = IF Mode = "online" THEN 0 ELSE Largest(E, u, v, Adj(RefX(orient), RefY(orient)))
Step == /\ pos <= 3
        /\ LET a == Perm(u, pos)  b == Perm(v, pos)  c == Adj(Perm(RefX(orient), pos), Perm(RefY(orient), pos))
               e == IF Mode = "online" THEN Largest(E, a, b, c) ELSE bound
               x == u[pos] \div Unit  y == v[pos] \div Unit     \* not moved yet
           IN \E eu \in (IF x = 0 THEN {0} ELSE (0 - e)..e), ev \in (IF y = 0 THEN {0} ELSE (0 - e)..e) :
                /\ u' = [u EXCEPT ![pos] = @ + eu * x] /\ v' = [v EXCEPT ![pos] = @ + ev * y]
                /\ moved' = (moved \/ eu # 0 \/ ev # 0)
        /\ pos' = pos + 1 /\ UNCHANGED <<orient, had, kind, bound>>
Spec == Init /\ [][Step]_vars

Settled == Mode = "online" \/ pos = 4
CpKept == Settled => Has(u, v) = had
KindKept == Settled /\ had => Kind(u, v, orient) = kind
=============================================================================
