----------------------------- MODULE ExactReal -----------------------------
(***************************************************************************)
(* Exact arithmetic on binary floating-point numbers.  TLC's integers have *)
(* 32 bits, so a finite number is the tuple                                *)
(*     << s, h, l, e >>  =  s * (h * 2^27 + l) * 2^e                       *)
(* with s in {-1,0,1}, h < 2^26, l < 2^27; zero is <<0,0,0,0>>; s = 9 marks*)
(* a value that is not finite.  Every question the contract asks is the    *)
(* exact sign of a polynomial in such numbers: PolySign.  Everything else  *)
(* in this module is defined by it.                                        *)
(*                                                                         *)
(* PolySign, CrossSign, DetSign, Abs/RelWithin, AbsExact and the Bi*        *)
(* operators have an accelerated evaluation (java/cpsz/ExactReal.java, a TLC operator        *)
(* override).  ExactRealTest checks it against the definitions below.      *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

Zero == <<0, 0, 0, 0>>
IsFinite(x) == x[1] # 9
SignOf(x) == x[1]
NegOf(x) == <<0 - x[1], x[2], x[3], x[4]>>
AbsOf(x) == <<IF x[1] = 0 THEN 0 ELSE 1, x[2], x[3], x[4]>>

(* integers of absolute value below 2^27 *)
IntNum(i) == IF i = 0 THEN Zero ELSE <<IF i > 0 THEN 1 ELSE -1, 0, IF i > 0 THEN i ELSE 0 - i, 0>>

----------------------------------------------------------------------------
(* natural numbers of any size: little-endian sequences of limbs below 2^13,
   without trailing zero limbs *)
B == 8192

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] # 0 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))

RECURSIVE CarryAdd(_, _, _)
CarryAdd(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET x == (IF a = <<>> THEN 0 ELSE Head(a)) + (IF b = <<>> THEN 0 ELSE Head(b)) + c IN
       <<x % B>> \o CarryAdd(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), x \div B)
LAdd(a, b) == CarryAdd(a, b, 0)

RECURSIVE CarryMul(_, _, _)
CarryMul(a, d, c) ==
  IF a = <<>> THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE LET x == Head(a) * d + c IN <<x % B>> \o CarryMul(Tail(a), d, x \div B)
LMulSmall(a, d) == IF d = 0 THEN <<>> ELSE CarryMul(a, d, 0)

RECURSIVE LMul(_, _)
LMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE Trim(LAdd(LMulSmall(b, Head(a)), <<0>> \o LMul(Tail(a), b)))

RECURSIVE LCmpFrom(_, _, _)
LCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] # b[i] THEN (IF a[i] > b[i] THEN 1 ELSE -1) ELSE LCmpFrom(a, b, i - 1)
LCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) > Len(b) THEN 1 ELSE -1) ELSE LCmpFrom(a, b, Len(a))

RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN <<>> ELSE <<0>> \o Zeros(n - 1)
LShift(a, k) == IF a = <<>> THEN a ELSE Zeros(k \div 13) \o LMulSmall(a, 2 ^ (k % 13))

RECURSIVE LOfNat(_)
LOfNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o LOfNat(n \div B)

(* the mantissa h * 2^27 + l *)
LMant(x) == Trim(<<x[3] % B, (x[3] \div B) % B, (x[3] \div (B * B)) + 2 * (x[2] % 4096),
                   (x[2] \div 4096) % B, x[2] \div (4096 * B)>>)

----------------------------------------------------------------------------
(* a term is << c, << x1, ..., xk >> >>: an integer times numbers *)
ISign(c) == IF c > 0 THEN 1 ELSE IF c < 0 THEN -1 ELSE 0

RECURSIVE FactorsSign(_)
FactorsSign(f) == IF f = <<>> THEN 1 ELSE Head(f)[1] * FactorsSign(Tail(f))
RECURSIVE FactorsExp(_)
FactorsExp(f) == IF f = <<>> THEN 0 ELSE Head(f)[4] + FactorsExp(Tail(f))
RECURSIVE FactorsMant(_)
FactorsMant(f) == IF f = <<>> THEN <<1>> ELSE LMul(LMant(Head(f)), FactorsMant(Tail(f)))

TSign(t) == ISign(t[1]) * FactorsSign(t[2])
TExp(t) == FactorsExp(t[2])
TMag(t) == LMul(LOfNat(IF t[1] < 0 THEN 0 - t[1] ELSE t[1]), FactorsMant(t[2]))

RECURSIVE SumSide(_, _, _)     \* sum of the magnitudes of the terms of sign s, in units of 2^base
SumSide(ts, s, base) ==
  IF ts = <<>> THEN <<>>
  ELSE LET t == Head(ts) IN
       IF TSign(t) = s THEN LAdd(LShift(TMag(t), TExp(t) - base), SumSide(Tail(ts), s, base))
       ELSE SumSide(Tail(ts), s, base)

RECURSIVE MinExp(_)            \* least exponent of the non-zero terms (100000 if none)
MinExp(ts) == IF ts = <<>> THEN 100000
              ELSE LET m == MinExp(Tail(ts)) IN
                   IF TSign(Head(ts)) = 0 THEN m ELSE IF TExp(Head(ts)) < m THEN TExp(Head(ts)) ELSE m

(* the sign (-1, 0, 1) of the sum of the terms *)
PolySign(ts) == LET base == MinExp(ts) IN LCmp(SumSide(ts, 1, base), SumSide(ts, -1, base))

----------------------------------------------------------------------------
Cmp(x, y) == PolySign(<< <<1, <<x>> >>, <<-1, <<y>> >> >>)
Leq(x, y) == Cmp(x, y) <= 0
MaxAbs(x, y) == IF Leq(AbsOf(x), AbsOf(y)) THEN AbsOf(y) ELSE AbsOf(x)

(* sign of a * d - b * c *)
CrossSign(a, b, c, d) == PolySign(<< <<1, <<a, d>> >>, <<-1, <<b, c>> >> >>)

(* sign of the determinant with rows p, q, r *)
DetSign(p, q, r) == PolySign(<< <<1, <<p[1], q[2], r[3]>> >>, <<-1, <<p[1], q[3], r[2]>> >>,
                                <<1, <<p[2], q[3], r[1]>> >>, <<-1, <<p[2], q[1], r[3]>> >>,
                                <<1, <<p[3], q[1], r[2]>> >>, <<-1, <<p[3], q[2], r[1]>> >> >>)

(* | sum ts | * 2^k > scale, where scale is a product of numbers *)
Clear(ts, scale, k) ==
  LET s == PolySign(ts)
      scaled == [i \in 1..Len(ts) |-> << s * ts[i][1] * 2 ^ k, ts[i][2] >>]
  IN s # 0 /\ PolySign(Append(scaled, <<-1, scale>>)) > 0

(* |x - y| <= e * (1 + 2^-k) *)
AbsWithin(x, y, e, k) ==
  /\ PolySign(<< << 2^k, <<x>> >>, << 0 - 2^k, <<y>> >>, << 0 - 2^k - 1, <<e>> >> >>) <= 0
  /\ PolySign(<< << 2^k, <<y>> >>, << 0 - 2^k, <<x>> >>, << 0 - 2^k - 1, <<e>> >> >>) <= 0

(* |x - y| <= e *)
AbsExact(x, y, e) ==
  /\ PolySign(<< <<1, <<x>> >>, <<-1, <<y>> >>, <<-1, <<e>> >> >>) <= 0
  /\ PolySign(<< <<1, <<y>> >>, <<-1, <<x>> >>, <<-1, <<e>> >> >>) <= 0

(* |x - y| <= |x| * ( r * (1 + 2^-20) + q * 2^-20 ) *)
RelWithin(x, y, r, q) ==
  LET a == AbsOf(x) IN
  /\ PolySign(<< << 2^20, <<x>> >>, << 0 - 2^20, <<y>> >>, << 0 - 2^20 - 1, <<r, a>> >>, << 0 - q, <<a>> >> >>) <= 0
  /\ PolySign(<< << 2^20, <<y>> >>, << 0 - 2^20, <<x>> >>, << 0 - 2^20 - 1, <<r, a>> >>, << 0 - q, <<a>> >> >>) <= 0
----------------------------------------------------------------------------
(* bilinear interpolation: w holds the values at the four corners (0,0), (1,0), (0,1), (1,1); everything at (x, y) / n is
   multiplied by n * n *)
BiTerms(w, x, y, n) == << << (n - x) * (n - y), <<w[1]>> >>, << x * (n - y), <<w[2]>> >>,
                          << (n - x) * y, <<w[3]>> >>, << x * y, <<w[4]>> >> >>
ProdTerms(c, a, b) == [ i \in 1..(Len(a) * Len(b)) |-> LET p == a[((i - 1) \div Len(b)) + 1]  q == b[((i - 1) % Len(b)) + 1] IN
                        << c * p[1] * q[1], p[2] \o q[2] >> ]
BiSign(w, x, y, n) == PolySign(BiTerms(w, x, y, n))
(* u(p) v(q) - v(p) u(q) for two points p, q given as <<x, y>> *)
BiCrossTerms(u, v, p, q, n) ==
  ProdTerms(1, BiTerms(u, p[1], p[2], n), BiTerms(v, q[1], q[2], n))
  \o ProdTerms(-1, BiTerms(v, p[1], p[2], n), BiTerms(u, q[1], q[2], n))
BiCrossSign(u, v, p, q, n) == PolySign(BiCrossTerms(u, v, p, q, n))
BiCrossClear(u, v, p, q, n, scale, k) == Clear(BiCrossTerms(u, v, p, q, n), scale, k)
============================================================================
