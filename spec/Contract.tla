------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* What a round trip through each method may return.  Each clause is a     *)
(* predicate on the request q, the input arrays X and the output arrays Y  *)
(* (sequences of arrays); Failures(q, X, Y, clauses) is the set of clauses *)
(* that do not hold.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE ExactReal
LOCAL INSTANCE VectorField
EC == INSTANCE EntropyCost

Abs2 == {"sz3_abs", "online_abs", "relax"}
Rel2 == {"online", "online_log", "offline", "offline_log"}
Bilin == {"bilinear"}
Rel3 == {"off3", "log3", "unst3"}
Abs3 == {"abs3"}
Scalar == {"sz2d", "sz3d"}
ScalarEb == {"sz2d_eb"}
Pwr == {"pwr2d", "pwr2d_eb"}
Exact == {"huffman", "bits", "lossless"}
Runs == {"runs", "flagruns"}   \* the same for sequences given and returned as runs: values and lengths
Files == {"file"}        \* an array written to a file and read back (twice)
Stats == {"verify"}      \* statistics printed about two arrays: min, max, range, largest error, largest error / range, NRMSE, point-wise relative error, PSNR, correlation
NoDecoder == {"sz3d_eb"}
Ops == Abs2 \cup Rel2 \cup Bilin \cup Rel3 \cup Abs3 \cup Scalar \cup ScalarEb \cup Pwr \cup Exact \cup Runs \cup Files \cup Stats \cup NoDecoder
Vec2 == Abs2 \cup Rel2 \cup Bilin
Logged == {"online_log", "offline_log", "bilinear", "off3", "log3", "unst3"}   \* error control on logarithms

(* which input arrays hold the data, and which output arrays answer them *)
DataIn(q, X) == IF q.op = "unst3" THEN <<X[2]>> ELSE IF q.op \in Vec2 THEN <<X[1], X[2]>>
                ELSE IF q.op \in {"off3", "log3", "abs3"} THEN <<X[1], X[2], X[3]>>
                ELSE IF q.op \in Files THEN <<X[1], X[1]>> ELSE IF q.op \in Runs THEN <<X[1], X[2]>> ELSE <<X[1]>>

----------------------------------------------------------------------------
(* shape: as many elements as were given, all finite *)
ShapeOk(q, X, Y) == IF q.op \in Stats THEN Len(Y) = 1 /\ Len(Y[1]) = 9 ELSE LET D == DataIn(q, X) IN
  /\ Len(Y) = Len(D)
  /\ \A k \in 1..Len(D) : Len(Y[k]) = Len(D[k])
FiniteOk(q, X, Y) == \A k \in 1..Len(Y) : \A i \in 1..(IF q.op \in Stats THEN 7 ELSE Len(Y[k])) : IsFinite(Y[k][i])

----------------------------------------------------------------------------
(* error bounds.  Slack in the log methods: rounding of a logarithm in the element type (8 * 2^-20) *)
RelSlack(q) == IF q.op \in Logged \/ q.op = "pwr2d_eb" THEN 8 ELSE IF q.op = "pwr2d" THEN 8 ELSE 0
\* |x - y| <= e, up to the rounding of the difference in the element type
AbsBoundOk(x, y, e) == AbsWithin(x, y, e, 20)
RelBoundOk(x, y, r, slack) == /\ RelWithin(x, y, r, slack)
                              /\ SignOf(x) = SignOf(y)
BoundOk(q, X, Y) ==
  LET D == DataIn(q, X) IN
  CASE q.op \in Abs2 \cup Abs3 -> \A k \in 1..Len(D) : \A i \in 1..Len(D[k]) : AbsBoundOk(D[k][i], Y[k][i], q.eb)
    [] q.op \in Scalar -> \A i \in 1..Len(D[1]) : AbsBoundOk(D[1][i], Y[1][i], q.eb)
    [] q.op \in ScalarEb -> \A i \in 1..Len(D[1]) : AbsBoundOk(D[1][i], Y[1][i], X[2][i])
    [] q.op = "pwr2d_eb" -> \A i \in 1..Len(D[1]) : RelBoundOk(D[1][i], Y[1][i], X[2][i], RelSlack(q))
    [] q.op \in Rel2 \cup Bilin \cup Rel3 \cup {"pwr2d"} ->
         \A k \in 1..Len(D) : \A i \in 1..Len(D[k]) : RelBoundOk(D[k][i], Y[k][i], q.eb, RelSlack(q))
    [] OTHER -> TRUE

(* zero and sign alone: what survives of the bound whatever its value *)
SignOk(q, X, Y) == LET D == DataIn(q, X) IN
  \A k \in 1..Len(D) : \A i \in 1..Len(D[k]) : SignOf(D[k][i]) = SignOf(Y[k][i])

----------------------------------------------------------------------------
(* critical points of the piecewise linear 2D field *)
TriUnchanged(X, Y, T) == \A i \in 1..3 : X[1][T[i]] = Y[1][T[i]] /\ X[2][T[i]] = Y[2][T[i]]

CpExact2(q, X, Y) == \A t \in 1..NTri(q.r1, q.r2) :
  LET T == Tri(q.r2, t) IN TriHas(X[1], X[2], T) = TriHas(Y[1], Y[2], T)
CpClear2(q, X, Y, k) == \A t \in 1..NTri(q.r1, q.r2) :
  LET T == Tri(q.r2, t) IN
  (TriHas(X[1], X[2], T) # TriHas(Y[1], Y[2], T)) =>
     LET m == TriClear(X[1], X[2], T, k)  w == TriClear(Y[1], Y[2], T, k) IN
     ~ (ClearlyHas(m) /\ ClearlyHasNot(w)) /\ ~ (ClearlyHasNot(m) /\ ClearlyHas(w))
CpDecided2(q, X, Y, k) == \A t \in 1..NTri(q.r1, q.r2) :
  LET T == Tri(q.r2, t) IN
  (TriHas(X[1], X[2], T) # TriHas(Y[1], Y[2], T)) =>
     \/ Undecided(TriClear(X[1], X[2], T, k))
     \/ Undecided(TriClear(Y[1], Y[2], T, 20))
Cp2Ok(q, X, Y) == CASE q.op \in {"sz3_abs", "online_abs"} -> CpExact2(q, X, Y)
                    [] q.op = "relax" -> CpClear2(q, X, Y, 13)
                    [] q.op \in Rel2 -> CpDecided2(q, X, Y, 16)
                    [] OTHER -> TRUE

(* vertices of triangles with a critical point are exact *)
VertExact2(q, X, Y) == \A t \in 1..NTri(q.r1, q.r2) :
  LET T == Tri(q.r2, t) IN
  IF TriUnchanged(X, Y, T) THEN TRUE
  ELSE IF q.op = "relax" THEN ~ SurelyHas(X[1], X[2], T, 13) ELSE ~ TriHas(X[1], X[2], T)

(* kinds of critical points *)
KindOk2(q, X, Y) == \A t \in 1..NTri(q.r1, q.r2) :
  LET T == Tri(q.r2, t) IN
  IF TriUnchanged(X, Y, T) \/ ~ TriHas(X[1], X[2], T) \/ ~ TriHas(Y[1], Y[2], T) THEN TRUE
  ELSE \/ TriKind(X[1], X[2], T, t) = TriKind(Y[1], Y[2], T, t)
       \/ ~ TriKindClear(X[1], X[2], T, t, 12) /\ (q.op = "offline_log" \/ ~ TriSmallInt(X[1], X[2], T))

----------------------------------------------------------------------------
(* bilinear cells *)
CellUnchanged(X, Y, K) == \A i \in 1..4 : X[1][K[i]] = Y[1][K[i]] /\ X[2][K[i]] = Y[2][K[i]]
BilinearOk(q, X, Y) == \A c \in 1..NCell(q.r1, q.r2) :
  LET K == CellCorners(q.r2, c)
      at(a) == <<a[K[1]], a[K[2]], a[K[3]], a[K[4]]>>
      some(A) == CellSome(at(A[1]), at(A[2]), 0, 0, 1, 2, 10)
      none(A) == CellNone(at(A[1]), at(A[2]), 0, 0, 1, 3)
  IN IF CellUnchanged(X, Y, K) THEN TRUE
     ELSE IF some(X) THEN ~ none(Y)
     ELSE IF none(X) THEN ~ some(Y)
     ELSE TRUE

----------------------------------------------------------------------------
(* tetrahedra; on a mesh the third input array lists their vertices *)
MeshArr(A) == << [i \in 1..(Len(A) \div 3) |-> A[3 * i - 2]], [i \in 1..(Len(A) \div 3) |-> A[3 * i - 1]], [i \in 1..(Len(A) \div 3) |-> A[3 * i]] >>
(* number of an integer-valued data element *)
IntOf(x) == IF x[1] = 0 THEN 0 ELSE x[1] * (IF x[4] <= -27 THEN x[2] \div (2 ^ (0 - x[4] - 27)) ELSE x[2] * 2 ^ (27 + x[4]) + (x[3] \div 2 ^ (0 - x[4])))
MeshTet(A, t) == [z \in 1..4 |-> IntOf(A[4 * t - 4 + z]) + 1]
TetJudge(q, w, v) ==         \* vectors before, after
  IF w = v THEN TRUE
  ELSE LET a == HasZero(TetSigns(w))  b == HasZero(TetSigns(v)) IN
       IF a = b THEN TRUE
       ELSE LET m == TetClear(w, 13) IN
            \/ Undecided(m)
            \/ (\E z \in 1..4 : m[z] = 0) /\ ~ TetSmallInt(w)
            \/ Undecided(TetClear(v, 20))
Vec3(A, T) == [z \in 1..4 |-> << A[3 * T[z] - 2], A[3 * T[z] - 1], A[3 * T[z]] >>]
Cp3Ok(q, X, Y) ==
  IF q.op = "unst3"
  THEN \A t \in 1..(Len(X[3]) \div 4) : LET T == MeshTet(X[3], t) IN TetJudge(q, Vec3(X[2], T), Vec3(Y[1], T))
  ELSE IF q.op \in {"off3", "log3", "abs3"}
  THEN \A t \in 1..NTet(q.r1, q.r2, q.r3) : LET T == Tet(q.r2, q.r3, t) IN TetJudge(q, TetVec(X, T), TetVec(Y, T))
  ELSE TRUE
VertExact3(q, X, Y) == \A t \in 1..NTet(q.r1, q.r2, q.r3) :
  LET T == Tet(q.r2, q.r3, t)  w == TetVec(X, T) IN
  IF w = TetVec(Y, T) THEN TRUE ELSE ~ HasZero(TetSigns(w))
VertOk(q, X, Y) == CASE q.op \in Abs2 -> VertExact2(q, X, Y)
                     [] q.op \in Abs3 -> VertExact3(q, X, Y)
                     [] OTHER -> TRUE

----------------------------------------------------------------------------
(* exact methods, and consumption of the stream *)
SameOk(q, X, Y) == IF q.op \in Exact THEN Y[1] = X[1] ELSE IF q.op \in Files THEN Y[1] = X[1] /\ Y[2] = X[1] ELSE IF q.op \in Runs THEN Y[1] = X[1] /\ Y[2] = X[2] ELSE TRUE

(* the stream is read to its end and not further *)
ConsumedOk(q, p) == IF q.op \in {"huffman", "bits"} \cup Runs THEN p.aux = p.size ELSE TRUE
(* the lossless stage gave back as many bytes as went in, the same ones, and recognises its own output *)
LosslessOk(q, p) == IF q.op = "lossless" THEN p.aux = q.n /\ p.inputOk
                    ELSE IF q.zstd THEN p.aux > 0 ELSE TRUE

----------------------------------------------------------------------------
(* files: exactly the elements, as many as whole elements fit in the file *)
FileOk(q, p) == IF q.op \in Files THEN p.aux = q.n /\ p.inputOk /\ p.size = q.n * (IF q.typ = "double" THEN 8 ELSE 4) ELSE TRUE

(* printed statistics S of the arrays A (original) and D (decompressed) *)
Le(x, y) == PolySign(<< <<1, <<y>> >>, <<-1, <<x>> >> >>) >= 0
Quantum33 == <<1, 0, 1, -33>>       \* the largest error is printed with ten digits after the point: 2^-33
(* twenty binary digits agree, up to the given amount *)
About(x, y, q33) == LET z == IF q33 THEN Quantum33 ELSE IntNum(0) IN
  /\ PolySign(<< <<1048577, <<y>> >>, <<-1048576, <<x>> >>, <<1048576, <<z>> >> >>) >= 0
  /\ PolySign(<< <<1048577, <<x>> >>, <<-1048576, <<y>> >>, <<1048576, <<z>> >> >>) >= 0
(* |a - d| against p:  p (1 + 2^-20) + 2^-33 and p (1 - 2^-20) - 2^-33 *)
ErrAtMost(a, d, p) == \A s \in {1, -1} :
  PolySign(<< <<1048577, <<p>> >>, <<1048576, <<Quantum33>> >>, <<-1048576 * s, <<a>> >>, <<1048576 * s, <<d>> >> >>) >= 0
ErrAtLeast(a, d, p) == \E s \in {1, -1} :
  PolySign(<< <<-1048575, <<p>> >>, <<1048576, <<Quantum33>> >>, <<1048576 * s, <<a>> >>, <<-1048576 * s, <<d>> >> >>) >= 0
SquaredErrors(A, D, c) == [i \in 1..(3 * Len(A)) |-> LET j == ((i - 1) \div 3) + 1  k == (i - 1) % 3 IN
  IF k = 0 THEN <<c, <<A[j], A[j]>> >> ELSE IF k = 1 THEN <<c, <<D[j], D[j]>> >> ELSE <<-2 * c, <<A[j], D[j]>> >>]
(* (N R)^2 n = sum of squared errors, up to 2^-10 of it (N is printed to twenty digits, the sum is a sum of rounded squares) *)
NrmseOk(A, D, N, R) ==
  /\ PolySign(Append(SquaredErrors(A, D, 1025), <<-1024 * Len(A), <<N, N, R, R>> >>)) >= 0
  /\ PolySign(Append(SquaredErrors(A, D, -1023), <<1024 * Len(A), <<N, N, R, R>> >>)) >= 0
(* greatest error relative to the range R, six digits after the point: |r R - e| <= 2^-20 (R + e) + 2^-33 *)
RangeRelOk(r, R, e) == \A s \in {1, -1} :
  PolySign(<< <<1048576 * s, <<r, R>> >>, <<-1048576 * s, <<e>> >>, <<-1, <<R>> >>, <<-1, <<e>> >>, <<-1048576, <<Quantum33>> >> >>) <= 0
(* greatest point-wise relative error of the elements greater than one, six digits after the point *)
PointRelOk(A, D, r) ==
  LET One == IntNum(1)
      Big == {i \in 1..Len(A) : PolySign(<< <<1, <<AbsOf(A[i])>> >>, <<-1, <<One>> >> >>) > 0}
      AtMost(i) == \A s \in {1, -1} : PolySign(<< <<1048576 * s, <<A[i]>> >>, <<-1048576 * s, <<D[i]>> >>, <<-1048577, <<r, AbsOf(A[i])>> >>, <<-1, <<AbsOf(A[i])>> >> >>) <= 0
      AtLeast(i) == \E s \in {1, -1} : PolySign(<< <<1048576 * s, <<A[i]>> >>, <<-1048576 * s, <<D[i]>> >>, <<-1048575, <<r, AbsOf(A[i])>> >>, <<1, <<AbsOf(A[i])>> >> >>) >= 0
  IN /\ \A i \in Big : AtMost(i)
     /\ IF Big = {} THEN SignOf(r) = 0 ELSE \E i \in Big : AtLeast(i)
(* P = -20 log10(N) to a quarter of a decibel, or infinite where nothing differs: with m = floor(4 P) one has
   10^-(m+1) < N^80 <= 10^-m *)
RECURSIVE FloorIn(_, _, _)
FloorIn(x, lo, hi) == IF hi - lo <= 1 THEN lo     \* floor(4 x) for lo <= 4 x < hi
                      ELSE LET m == (lo + hi) \div 2 IN
                           IF PolySign(<< <<4, <<x>> >>, <<0 - m, <<IntNum(1)>> >> >>) >= 0 THEN FloorIn(x, m, hi) ELSE FloorIn(x, lo, m)
TenTo(k) == [i \in 1..k |-> IntNum(10)]
NTo80(N) == [i \in 1..80 |-> N]
\* N^80 against 10^-k
PowerSign(N, k) == PolySign(IF k >= 0 THEN << <<1, NTo80(N) \o TenTo(k)>>, <<-1, <<IntNum(1)>> >> >>
                            ELSE << <<1, NTo80(N)>>, <<-1, TenTo(0 - k)>> >>)
PsnrOk(P, N) == IF SignOf(N) = 0 THEN P = <<9, 1, 0, 0>>
                ELSE /\ IsFinite(P)
                     /\ LET m == FloorIn(P, -4000, 4000) IN PowerSign(N, m - 1) <= 0 /\ PowerSign(N, m + 2) >= 0
(* correlation.  With Sxy = n sum(x y) - sum(x) sum(y) it is Sad / sqrt(Saa Sdd); exact, for few elements *)
MomentTerms(X, Y, c) == LET n == Len(X) IN
  [i \in 1..(n + n * n) |-> IF i <= n THEN <<c * n, <<X[i], Y[i]>> >>
                            ELSE << 0 - c, <<X[((i - n - 1) \div n) + 1], Y[((i - n - 1) % n) + 1]>> >>]
Times(S, T, c) == [i \in 1..(Len(S) * Len(T)) |-> LET a == S[((i - 1) \div Len(T)) + 1]  b == T[((i - 1) % Len(T)) + 1] IN
                    <<c * a[1] * b[1], a[2] \o b[2]>>]
Varies(X) == LET n == Len(X) IN   \* the variance is well above the rounding of the elements
  PolySign([i \in 1..(n + n + n * n) |-> IF i <= n THEN << -1, <<X[i], X[i]>> >>
                                          ELSE LET t == MomentTerms(X, X, 1048576)[i - n] IN t]) > 0
\* |C| sqrt(Saa Sdd) = |Sad| up to 2^-9 sqrt(Saa Sdd)
CorrelationOk(A, D, C) ==
  IF Len(A) > 4 \/ ~ Varies(A) \/ ~ Varies(D) THEN TRUE
  ELSE /\ IsFinite(C)
       /\ LET ad == MomentTerms(A, D, 1)  aa == MomentTerms(A, A, 1)  dd == MomentTerms(D, D, 1)
              vv == Times(aa, dd, 1)
              Scaled(c, f) == [i \in 1..Len(vv) |-> <<c * vv[i][1], vv[i][2] \o f>>]
              c1 == AbsOf(C)  s == PolySign(ad) IN
          \* (|C| - 2^-9)^2 Saa Sdd <= Sad^2 unless |C| <= 2^-9;  (|C| + 2^-9)^2 Saa Sdd >= Sad^2
          /\ \/ PolySign(<< <<512, <<c1>> >>, << -1, <<IntNum(1)>> >> >>) <= 0
             \/ /\ PolySign(Scaled(262144, <<c1, c1>>) \o Scaled(-1024, <<c1>>) \o Scaled(1, << >>) \o Times(ad, ad, -262144)) <= 0
                /\ SignOf(C) = s
          /\ PolySign(Scaled(262144, <<c1, c1>>) \o Scaled(1024, <<c1>>) \o Scaled(1, << >>) \o Times(ad, ad, -262144)) >= 0
StatsOk(q, X, Y) ==
  IF q.op \notin Stats THEN TRUE ELSE
  LET A == X[1]  D == X[2]  S == Y[1]  n == Len(A) IN
  /\ (\E i \in 1..n : A[i] = S[1]) /\ (\A i \in 1..n : Le(S[1], A[i]))
  /\ (\E i \in 1..n : A[i] = S[2]) /\ (\A i \in 1..n : Le(A[i], S[2]))
  /\ PolySign(<< <<1048577, <<S[2]>> >>, <<-1048577, <<S[1]>> >>, <<-1048576, <<S[3]>> >> >>) >= 0
  /\ PolySign(<< <<1048575, <<S[2]>> >>, <<-1048575, <<S[1]>> >>, <<-1048576, <<S[3]>> >> >>) <= 0
  /\ (\A i \in 1..n : ErrAtMost(A[i], D[i], S[4])) /\ (\E i \in 1..n : ErrAtLeast(A[i], D[i], S[4]))
  /\ PointRelOk(A, D, S[7])
  /\ IF SignOf(S[3]) <= 0 THEN TRUE ELSE /\ NrmseOk(A, D, S[6], S[3])
                                         /\ RangeRelOk(S[5], S[3], S[4])
                                         /\ PsnrOk(S[8], S[6])
                                         /\ CorrelationOk(A, D, S[9])

----------------------------------------------------------------------------
(* sizes.  Elements are 4 or 8 bytes.  A value costs at most: itself, an entry of the code tree (two nodes of up to 13
   bytes), and the two codes of its bound and its residual (less than 32 bits together) *)
SizeFactor == 8
SizeOverhead == 4096
ElemBytes(q) == IF q.op \in {"lossless", "bits"} THEN 1 ELSE IF q.typ = "double" THEN 8 ELSE 4
(* values given, counted over all data arrays *)
Values(q) == CASE q.op \in Vec2 -> 2 * q.n
               [] q.op \in {"off3", "log3", "abs3"} -> 3 * q.n
               [] OTHER -> q.n
(* a stream is at most this many times the raw data plus an overhead *)
SizeOk(q, p) == IF q.op \in Exact \cup Runs \cup Files \cup Stats THEN TRUE
                ELSE p.size <= SizeOverhead + SizeFactor * Values(q) * ElemBytes(q)
(* the entropy coder's stream: sizes (32 bytes at most), the code tree (a byte, and for each of its nodes a flag, a symbol
   of four bytes and two node numbers as wide as necessary), and as many bits as an optimal prefix code needs *)
NodeBytes(n) == 5 + (IF n <= 256 THEN 2 ELSE IF n <= 65536 THEN 4 ELSE 8)
EntropyOk(q, p, X) ==
  IF q.op \notin {"huffman", "runs"} \/ q.n = 0 THEN TRUE
  ELSE LET f == IF q.op = "huffman" THEN EC!Sorted(X[1]) ELSE EC!SortedRuns(X[1], X[2])
           d == Len(f)  nodes == 2 * d - 1 IN
       IF d > 4000 THEN TRUE ELSE p.size <= 33 + nodes * NodeBytes(nodes) + ((EC!BitsFor(f) + 7) \div 8)
(* constant data (and bounds), large enough, shrinks to a small fraction behind the lossless stage *)
ConstArr(a) == \A i \in 1..Len(a) : a[i] = a[1]
ConstVec(a) == \A i \in 1..Len(a) : a[i] = a[((i - 1) % 3) + 1]
Constant(q, X) == /\ \A k \in 1..Len(DataIn(q, X)) : IF q.op = "unst3" THEN ConstVec(DataIn(q, X)[k]) ELSE ConstArr(DataIn(q, X)[k])
                  /\ q.op \in {"sz2d_eb", "pwr2d_eb", "sz3d_eb"} => ConstArr(X[Len(X)])
(* bounds that are not near the rounding of the elements (where quantization in an element type may dither) *)
Coarse(q, X) ==
  CASE q.op \in Abs2 \cup Abs3 \cup Scalar -> \A k \in 1..Len(DataIn(q, X)) : PolySign(<< <<512, <<q.eb>> >>, <<-1, <<AbsOf(DataIn(q, X)[k][1])>> >> >>) >= 0
    [] q.op \in {"sz2d_eb", "sz3d_eb"} -> PolySign(<< <<512, <<X[Len(X)][1]>> >>, <<-1, <<AbsOf(X[1][1])>> >> >>) >= 0
    [] q.op = "pwr2d_eb" -> PolySign(<< <<512, <<X[2][1]>> >>, <<-1, <<IntNum(1)>> >> >>) >= 0
    [] OTHER -> PolySign(<< <<512, <<q.eb>> >>, <<-1, <<IntNum(1)>> >> >>) >= 0
RatioOk(q, p, X) == IF q.zstd /\ q.op \notin Exact \cup Runs /\ Values(q) >= 20000 /\ Constant(q, X) /\ Coarse(q, X)
                    THEN p.aux * 40 <= Values(q) * ElemBytes(q) ELSE TRUE

ClauseHolds(cl, q, X, Y) ==
  CASE cl = "shape" -> ShapeOk(q, X, Y)
    [] cl = "finite" -> FiniteOk(q, X, Y)
    [] cl = "bound" -> BoundOk(q, X, Y)
    [] cl = "sign" -> SignOk(q, X, Y)
    [] cl = "cp2" -> Cp2Ok(q, X, Y)
    [] cl = "vertex" -> VertOk(q, X, Y)
    [] cl = "kind" -> IF q.op \in Rel2 THEN KindOk2(q, X, Y) ELSE TRUE
    [] cl = "bilinear" -> IF q.op \in Bilin THEN BilinearOk(q, X, Y) ELSE TRUE
    [] cl = "cp3" -> Cp3Ok(q, X, Y)
    [] cl = "same" -> SameOk(q, X, Y)
    [] cl = "stats" -> StatsOk(q, X, Y)

DataClauses == {"bound", "sign", "cp2", "vertex", "kind", "bilinear", "cp3", "same", "stats"}

(* the clauses that do not hold; nothing else is asked of an answer of the wrong shape or with values that are not finite *)
Failures(q, X, Y, clauses) ==
  IF q.op \in NoDecoder THEN {}
  ELSE IF ~ ShapeOk(q, X, Y) THEN {"shape"}
  ELSE IF ~ FiniteOk(q, X, Y) THEN {"finite"}
  ELSE {cl \in clauses : ~ ClauseHolds(cl, q, X, Y)}
=============================================================================
