---------------------------- MODULE VectorField ----------------------------
(***************************************************************************)
(* Geometry of sampled vector fields: which triangles, cells and           *)
(* tetrahedra a grid has, when one of them contains a critical point (a    *)
(* zero of the interpolated field), and of which kind it is.  All answers  *)
(* are exact; "clear" variants say that an answer is not within rounding   *)
(* of undecided.                                                           *)
(* An array is a sequence of numbers (module ExactReal) in raster order.   *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE ExactReal

(* a set of signs of minors: the barycentric coordinates of the zero of a
   linear field are proportional to them, so the zero is in the (closed)
   simplex iff they do not disagree; all zero: the field is degenerate *)
HasZero(m) == /\ ~ \E a, b \in DOMAIN m : m[a] = 1 /\ m[b] = -1
              /\ \E a \in DOMAIN m : m[a] # 0

----------------------------------------------------------------------------
(* 2D: rows r1, columns r2; each cell has two triangles *)
NTri(r1, r2) == IF r1 < 2 \/ r2 < 2 THEN 0 ELSE 2 * (r1 - 1) * (r2 - 1)
Tri(r2, t) == LET cell == (t - 1) \div 2
                  a == (cell \div (r2 - 1)) * r2 + (cell % (r2 - 1)) + 1
              IN << a, IF t % 2 = 1 THEN a + r2 ELSE a + 1, a + r2 + 1 >>

TriSigns(U, V, T) == << CrossSign(U[T[3]], U[T[1]], V[T[3]], V[T[1]]),
                        CrossSign(U[T[2]], U[T[3]], V[T[2]], V[T[3]]),
                        CrossSign(U[T[1]], U[T[2]], V[T[1]], V[T[2]]) >>
TriHas(U, V, T) == HasZero(TriSigns(U, V, T))

MinorTerms(U, V, p, q) == << <<1, <<U[p], V[q]>> >>, <<-1, <<U[q], V[p]>> >> >>
Max3(A, T) == MaxAbs(MaxAbs(A[T[1]], A[T[2]]), A[T[3]])
TriScale(U, V, T) == << Max3(U, T), Max3(V, T) >>
(* each minor: its sign if clear at 2^-k, 0 if it is zero, 2 if neither *)
TriClear(U, V, T, k) ==
  LET S == TriScale(U, V, T)
      one(p, q) == LET s == CrossSign(U[p], U[q], V[p], V[q]) IN
                   IF s = 0 THEN 0 ELSE IF Clear(MinorTerms(U, V, p, q), S, k) THEN s ELSE 2
  IN << one(T[3], T[1]), one(T[2], T[3]), one(T[1], T[2]) >>
(* strictly clear: yes if all minors are clear and agree, no if two clear ones disagree *)
ClearlyHas(m) == \/ \A a \in DOMAIN m : m[a] = 1
                 \/ \A a \in DOMAIN m : m[a] = -1
ClearlyHasNot(m) == \E a, b \in DOMAIN m : m[a] = 1 /\ m[b] = -1
(* the minors neither all have an answer nor do two clear ones disagree *)
Undecided(m) == (\E a \in DOMAIN m : m[a] = 2) /\ ~ ClearlyHasNot(m)

(* kind of the critical point of the linear field on triangle T of number t:
   x grows with the column, y with the row *)
XPair(T, t) == IF t % 2 = 1 THEN << T[3], T[2] >> ELSE << T[2], T[1] >>
YPair(T, t) == IF t % 2 = 1 THEN << T[2], T[1] >> ELSE << T[3], T[2] >>
(* (A[p] - A[q]) (C[r] - C[s]) as terms with coefficient c *)
DiffProd(c, A, P, C, R) == << << c, <<A[P[1]], C[R[1]]>> >>, << 0 - c, <<A[P[1]], C[R[2]]>> >>,
                              << 0 - c, <<A[P[2]], C[R[1]]>> >>, << c, <<A[P[2]], C[R[2]]>> >> >>
DetTerms(c, U, V, X, Y) == DiffProd(c, U, X, V, Y) \o DiffProd(0 - c, U, Y, V, X)
TraceTerms(U, V, X, Y) == << <<1, <<U[X[1]]>> >>, <<-1, <<U[X[2]]>> >>, <<1, <<V[Y[1]]>> >>, <<-1, <<V[Y[2]]>> >> >>
DiscTerms(U, V, X, Y) == DiffProd(1, U, X, U, X) \o DiffProd(2, U, X, V, Y) \o DiffProd(1, V, Y, V, Y)
                         \o DetTerms(-4, U, V, X, Y)
Kind(d, tr, di) == IF d < 0 THEN "saddle"
                   ELSE IF d = 0 THEN "singular"
                   ELSE IF tr = 0 THEN "center"
                   ELSE IF di < 0 THEN (IF tr > 0 THEN "repelling focus" ELSE "attracting focus")
                   ELSE IF di = 0 THEN (IF tr > 0 THEN "repelling star" ELSE "attracting star")
                   ELSE IF tr > 0 THEN "repelling node" ELSE "attracting node"
TriKind(U, V, T, t) == LET X == XPair(T, t)  Y == YPair(T, t) IN
  Kind(PolySign(DetTerms(1, U, V, X, Y)), PolySign(TraceTerms(U, V, X, Y)), PolySign(DiscTerms(U, V, X, Y)))
(* the kind is not within rounding (2^-k) of another one *)
TriKindClear(U, V, T, t, k) ==
  LET X == XPair(T, t)  Y == YPair(T, t)
      mu == Max3(U, T)  mv == Max3(V, T)
      m == MaxAbs(mu, mv)
      dt == DetTerms(1, U, V, X, Y)
  IN /\ Clear(dt, <<mu, mv>>, k)
     /\ \/ PolySign(dt) < 0
        \/ /\ Clear(TraceTerms(U, V, X, Y), <<m>>, k)
           /\ Clear(DiscTerms(U, V, X, Y), <<m, m>>, k)

(* an integer of magnitude below 2^10 *)
SmallInt(x) == \/ x[1] = 0
               \/ /\ Leq(AbsOf(x), IntNum(1024))
                  /\ \/ x[4] >= 0
                     \/ x[4] >= -27 /\ x[3] % (2 ^ (0 - x[4])) = 0
                     \/ x[4] < -27 /\ x[4] > -54 /\ x[3] = 0 /\ x[2] % (2 ^ (0 - x[4] - 27)) = 0
TriSmallInt(U, V, T) == \A i \in 1..3 : SmallInt(U[T[i]]) /\ SmallInt(V[T[i]])

(* a critical point that barycentric coordinates computed in floating point
   find, too: well inside the triangle; on a vertex (a quotient of equal
   numbers) whose opposite edge has a clear minor; anywhere among small
   integers but on the edge opposite to the third vertex, whose coordinate is
   computed from the two others *)
ZeroVertex(U, V, T, i) == U[T[i]][1] = 0 /\ V[T[i]][1] = 0
SurelyHas(U, V, T, k) ==
  LET m == TriClear(U, V, T, k) IN
  \/ ClearlyHas(m)
  \/ ZeroVertex(U, V, T, 3) /\ m[3] \in {1, -1}
  \/ ZeroVertex(U, V, T, 1) /\ m[2] \in {1, -1}
  \/ ZeroVertex(U, V, T, 2) /\ m[1] \in {1, -1}
  \/ TriSmallInt(U, V, T) /\ TriHas(U, V, T) /\ m[3] # 0

----------------------------------------------------------------------------
(* 3D: six tetrahedra per cell; layers r1, rows r2, columns r3.  Offsets are
   << layer, row, column >> *)
TetOffsets == << << <<0,0,0>>, <<1,0,0>>, <<1,1,0>>, <<1,1,1>> >>, << <<0,0,0>>, <<0,1,0>>, <<1,1,0>>, <<1,1,1>> >>,
                 << <<0,0,0>>, <<1,0,0>>, <<1,0,1>>, <<1,1,1>> >>, << <<0,0,0>>, <<0,0,1>>, <<1,0,1>>, <<1,1,1>> >>,
                 << <<0,0,0>>, <<0,1,0>>, <<0,1,1>>, <<1,1,1>> >>, << <<0,0,0>>, <<0,0,1>>, <<0,1,1>>, <<1,1,1>> >> >>
NTet(r1, r2, r3) == IF r1 < 2 \/ r2 < 2 \/ r3 < 2 THEN 0 ELSE 6 * (r1 - 1) * (r2 - 1) * (r3 - 1)
Tet(r2, r3, t) ==
  LET cell == (t - 1) \div 6
      i == cell \div ((r2 - 1) * (r3 - 1))
      j == (cell \div (r3 - 1)) % (r2 - 1)
      k == cell % (r3 - 1)
      o == TetOffsets[((t - 1) % 6) + 1]
  IN [ z \in 1..4 |-> (i + o[z][1]) * r2 * r3 + (j + o[z][2]) * r3 + (k + o[z][3]) + 1 ]

(* vectors of the four vertices: D is a sequence of three arrays *)
TetVec(D, T) == [ z \in 1..4 |-> << D[1][T[z]], D[2][T[z]], D[3][T[z]] >> ]
TetSigns(w) == << DetSign(w[2], w[3], w[4]), 0 - DetSign(w[1], w[3], w[4]), DetSign(w[1], w[2], w[4]), 0 - DetSign(w[1], w[2], w[3]) >>
Det3Terms(p, q, r) == << <<1, <<p[1], q[2], r[3]>> >>, <<-1, <<p[1], q[3], r[2]>> >>,
                         <<1, <<p[2], q[3], r[1]>> >>, <<-1, <<p[2], q[1], r[3]>> >>,
                         <<1, <<p[3], q[1], r[2]>> >>, <<-1, <<p[3], q[2], r[1]>> >> >>
TetScale(w) == [ c \in 1..3 |-> MaxAbs(MaxAbs(w[1][c], w[2][c]), MaxAbs(w[3][c], w[4][c])) ]
TetClear(w, k) ==
  LET S == TetScale(w)
      m == TetSigns(w)
      one(z, p, q, r) == IF m[z] = 0 THEN 0 ELSE IF Clear(Det3Terms(w[p], w[q], w[r]), <<S[1], S[2], S[3]>>, k) THEN m[z] ELSE 2
  IN << one(1, 2, 3, 4), one(2, 1, 3, 4), one(3, 1, 2, 4), one(4, 1, 2, 3) >>
TetSmallInt(w) == \A z \in 1..4 : \A c \in 1..3 : SmallInt(w[z][c])

----------------------------------------------------------------------------
(* bilinear cells.  On the sub-square [x, x+1] x [y, y+1] / 2^d of the unit
   cell the field is bilinear too, and linear along each side; so it certainly
   has a zero if the boundary winds around the origin, and certainly has none
   if one component has one strict sign at the four corners. *)
NCell(r1, r2) == IF r1 < 2 \/ r2 < 2 THEN 0 ELSE (r1 - 1) * (r2 - 1)
CellCorners(r2, q) == LET a == ((q - 1) \div (r2 - 1)) * r2 + ((q - 1) % (r2 - 1)) + 1
                      IN << a, a + 1, a + r2, a + r2 + 1 >>
Corner(x, y, z) == << x + (z % 2), y + (z \div 2) >>      \* z in 0..3
OneSign(w, x, y, n) ==
  LET s(z) == BiSign(w, Corner(x, y, z)[1], Corner(x, y, z)[2], n)
      s0 == s(0)
  IN s0 # 0 /\ s(1) = s0 /\ s(2) = s0 /\ s(3) = s0
(* boundary in order 0, 1, 3, 2 *)
Ring == << 0, 1, 3, 2 >>
RingPoint(x, y, i) == Corner(x, y, Ring[((i - 1) % 4) + 1])
(* half-plane crossing count: +1 for a side crossing the positive u axis upwards, -1 downwards *)
Up(s) == s >= 0
Winding(u, v, x, y, n) ==
  LET up(i) == Up(BiSign(v, RingPoint(x, y, i)[1], RingPoint(x, y, i)[2], n))
      side(i) == LET a == up(i)  b == up(i + 1) IN
                 IF a = b THEN 0
                 ELSE LET c == BiCrossSign(u, v, RingPoint(x, y, i), RingPoint(x, y, i + 1), n) IN
                      IF b THEN (IF c > 0 THEN 1 ELSE 0) ELSE (IF c < 0 THEN -1 ELSE 0)
  IN side(1) + side(2) + side(3) + side(4)
(* no side passes near the origin: cross products of consecutive corners clear at 2^-k *)
MaxOf4(w) == MaxAbs(MaxAbs(w[1], w[2]), MaxAbs(w[3], w[4]))
RingClear(u, v, x, y, n, k) ==
  LET scale == <<MaxOf4(u), MaxOf4(v)>>
  IN \A i \in 1..4 : BiCrossClear(u, v, RingPoint(x, y, i), RingPoint(x, y, i + 1), n, scale, k)

(* u, v: the components at the four corners of a cell; the part of it asked about is the square of side 1/n at (x, y)/n *)
RECURSIVE CellNone(_, _, _, _, _, _)
CellNone(u, v, x, y, n, depth) ==
  \/ OneSign(u, x, y, n)
  \/ OneSign(v, x, y, n)
  \/ /\ depth > 0
     /\ \A z \in 0..3 : CellNone(u, v, 2 * x + (z % 2), 2 * y + (z \div 2), 2 * n, depth - 1)

RECURSIVE CellSome(_, _, _, _, _, _, _)
CellSome(u, v, x, y, n, depth, k) ==
  /\ ~ OneSign(u, x, y, n)
  /\ ~ OneSign(v, x, y, n)
  /\ \/ Winding(u, v, x, y, n) # 0 /\ RingClear(u, v, x, y, n, k)
     \/ /\ depth > 0
        /\ \E z \in 0..3 : CellSome(u, v, 2 * x + (z % 2), 2 * y + (z \div 2), 2 * n, depth - 1, k)
=============================================================================
