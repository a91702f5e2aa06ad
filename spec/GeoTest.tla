------------------------------ MODULE GeoTest ------------------------------
(***************************************************************************)
(* The geometry of module VectorField against first principles, on all     *)
(* small integer vectors: a triangle (tetrahedron) contains a critical     *)
(* point iff some non-negative weights of its vertices make the weighted   *)
(* sum of the vectors vanish; and the "clear" variants never contradict    *)
(* the exact answers.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VF == INSTANCE VectorField
XR == INSTANCE ExactReal
IG == INSTANCE IntGeo
CONSTANTS B, Dim, Fixed      \* components in -B..B; Dim = 2 or 3; in 3D the first vertex takes values from Fixed (a set of vectors)
VARIABLE w                   \* the vectors of the vertices, given one by one
Vals == (0 - B)..B
Vecs == IF Dim = 2 THEN Vals \X Vals ELSE Vals \X Vals \X Vals
Full == Len(w) = Dim + 1
Init == w = << >>
Next == ~ Full /\ \E x \in (IF Dim = 3 /\ w = << >> THEN Fixed ELSE Vecs) : w' = Append(w, x)
Spec == Init /\ [][Next]_w

Num(c) == [i \in 1..(Dim + 1) |-> XR!IntNum(w[i][c])]      \* component c as an array
U == [i \in 1..3 |-> w[i][1]]   V == [i \in 1..3 |-> w[i][2]]
T == <<1, 2, 3>>
(* minors are at most MaxW in magnitude *)
MaxW == IF Dim = 2 THEN 2 * B * B ELSE 4 * B * B * B
Weights == [1..(Dim + 1) -> 0..MaxW]
Vanishes(a) == \A c \in 1..Dim : (a[1] * w[1][c] + a[2] * w[2][c] + a[3] * w[3][c] + (IF Dim = 3 THEN a[4] * w[4][c] ELSE 0)) = 0
SomeWeights == \E a \in Weights : (\E i \in DOMAIN a : a[i] > 0) /\ Vanishes(a)

(* 2D *)
Degenerate2 == \A a, b \in 1..3 : U[a] * V[b] = U[b] * V[a]
Has2 == VF!TriHas(Num(1), Num(2), T)
Clear2(k) == VF!TriClear(Num(1), Num(2), T, k)
Perms == { p \in [1..3 -> 1..3] : Cardinality({p[1], p[2], p[3]}) = 3 }
OpD(m) == VF!ClearlyHas(m) /\ VF!ClearlyHasNot(m)
(* a linear map of the vectors and the order of the vertices do not matter *)
Triangle == (Dim = 2 /\ Full) =>
  LET N1 == Num(1)  N2 == Num(2)  H == VF!TriHas(N1, N2, T) IN
  /\ H = (~ Degenerate2 /\ SomeWeights)
  /\ H = IG!Has(U, V)
  /\ \A p \in Perms : VF!TriHas(N1, N2, p) = H
  /\ VF!TriHas(N2, N1, T) = H
  /\ \A k \in {1, 13} : LET m == VF!TriClear(N1, N2, T, k) IN
        /\ VF!ClearlyHas(m) => H
        /\ VF!ClearlyHasNot(m) => ~ H
        /\ ~ (VF!Undecided(m) /\ (VF!ClearlyHas(m) \/ VF!ClearlyHasNot(m)))
        /\ VF!SurelyHas(N1, N2, T, k) => H
  /\ \A o \in 1..2 : VF!TriKind(N1, N2, T, o) = IG!Kind(U, V, o)
  /\ \A o \in 1..2 : \A k \in {1, 3} : (VF!TriKindClear(N1, N2, T, o, k) /\ H) =>
        (VF!TriKindClear(N1, N2, T, o, 12) /\ VF!TriKind(N1, N2, T, o) \in {"saddle", "repelling focus", "attracting focus", "repelling node", "attracting node"})

(* 3D *)
RealVec == [i \in 1..4 |-> <<XR!IntNum(w[i][1]), XR!IntNum(w[i][2]), XR!IntNum(w[i][3])>>]
Det(p, q, r) == p[1] * (q[2] * r[3] - q[3] * r[2]) - p[2] * (q[1] * r[3] - q[3] * r[1]) + p[3] * (q[1] * r[2] - q[2] * r[1])
IntMinors == << Det(w[2], w[3], w[4]), 0 - Det(w[1], w[3], w[4]), Det(w[1], w[2], w[4]), 0 - Det(w[1], w[2], w[3]) >>
Degenerate3 == \A i \in 1..4 : IntMinors[i] = 0
Tetrahedron == (Dim = 3 /\ Full) =>
  LET R == RealVec  s == VF!TetSigns(R)  H == VF!HasZero(s)  im == IntMinors IN
  /\ s = [i \in 1..4 |-> IG!Sgn(im[i])]
  /\ H = (~ Degenerate3 /\ ((\A i \in 1..4 : im[i] >= 0) \/ (\A j \in 1..4 : im[j] <= 0)))
  (* the minors are weights *)
  /\ \A c \in 1..3 : (im[1] * w[1][c] + im[2] * w[2][c] + im[3] * w[3][c] + im[4] * w[4][c]) = 0
  /\ \A k \in {1, 13} : LET m == VF!TetClear(R, k) IN
        /\ VF!ClearlyHas(m) => H
        /\ VF!ClearlyHasNot(m) => ~ H
        /\ ~ (VF!Undecided(m) /\ (VF!ClearlyHas(m) \/ VF!ClearlyHasNot(m)))
(* and, where affordable, no other weights do *)
TetrahedronWeights == (Dim = 3 /\ Full) => (VF!HasZero(VF!TetSigns(RealVec)) = (~ Degenerate3 /\ SomeWeights))
=============================================================================
