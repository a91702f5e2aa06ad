------------------------------ MODULE EbQuant ------------------------------
(***************************************************************************)
(* A vertex's bound on its way from the encoder to the decoder.             *)
(* The derived bound d (a multiple of 1 / Grain of the threshold) becomes   *)
(* the exponent of the largest power of the base not above it; the power is *)
(* the bound granted, and the exponent goes into the stream.  A vertex that *)
(* cannot be quantized is stored as it is, and the decoder has to see that: *)
(* Mode "zero": exponent 0 marks it (2D, 3D absolute, online log).           *)
(* Mode "top":  exponent 0 or one above the largest possible one marks it    *)
(*              (3D online, offline).                                       *)
(* Mode "code": the code 0 of the element marks it, the exponent stands      *)
(*              (2D offline, relaxed, bilinear, sz3).                        *)
(* Elements are integers, predicted by the previous restored one.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Base, Grain, MaxBound, Data, Radius, Len_, Mode, Variant
VARIABLES pc, derived, granted, input, exps, codes, raws,    \* encoder
          enc, restored, e, c, r                             \* what it takes the output to be; decoder
vars == <<pc, derived, granted, input, exps, codes, raws, enc, restored, e, c, r>>

RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE Base * Pow(k - 1)
(* exponent of the largest power not above b / Grain; bounds at or below the threshold are 0 *)
Floor(b) == IF b <= Grain THEN 0 ELSE CHOOSE k \in 0..40 : Pow(k) * Grain <= b /\ b < Pow(k + 1) * Grain
Exponent(b) == IF Variant = "round" THEN Floor(b) + (IF b > Grain /\ b * 2 >= (Base + 1) * Pow(Floor(b)) * Grain THEN 1 ELSE 0) ELSE Floor(b)
(* the bound granted: 0 for exponent 0 *)
Granted(k, d) == IF k = 0 THEN (IF Variant = "one" /\ d > Grain THEN Grain ELSE 0) ELSE Pow(k) * Grain
(* the decoder's *)
Decoded(k) == IF k = 0 THEN 0 ELSE Pow(k) * Grain
Top == Floor(MaxBound) + (IF Variant = "low" THEN 0 ELSE 1)
Mark == IF Mode = "top" THEN Top ELSE 0
AsIs(k, code) == IF Mode = "code" THEN code = 0 ELSE k = 0 \/ (Mode = "top" /\ k = Top)

Abs(x) == IF x < 0 THEN 0 - x ELSE x
Prev(s) == IF s = << >> THEN 0 ELSE s[Len(s)]
(* linear quantization of x with bound b around p: the multiple of 2 b nearest to x *)
Index(x, p, b) == LET d == Abs(x - p)  q == (d + b) \div (2 * b) IN IF x < p THEN 0 - q ELSE q

Init == /\ pc = "bound" /\ derived = << >> /\ granted = << >> /\ input = << >> /\ exps = << >> /\ codes = << >> /\ raws = << >>
        /\ enc = << >> /\ restored = << >> /\ e = 1 /\ c = 1 /\ r = 1
Encode ==
  /\ pc = "bound" /\ Len(input) < Len_
  /\ \E d \in 0..MaxBound, x \in Data :
       LET k == Exponent(d)  g == Granted(k, d)  p == Prev(enc)
           q == IF g = 0 THEN 0 ELSE Index(x * Grain, p, g)
           y == p + 2 * q * g
           fits == g > 0 /\ (k > 0 \/ Mode = "code") /\ Abs(q) < Radius /\ Abs(y - x * Grain) <= g
       IN /\ derived' = Append(derived, d) /\ granted' = Append(granted, g) /\ input' = Append(input, x * Grain)
          /\ enc' = Append(enc, IF fits THEN y ELSE x * Grain)
          /\ exps' = Append(exps, IF fits \/ Mode = "code" THEN k ELSE IF Variant = "stale" THEN k ELSE Mark)
          /\ codes' = IF fits THEN Append(codes, q + Radius) ELSE IF Mode = "code" THEN Append(codes, 0) ELSE codes
          /\ raws' = IF fits THEN raws ELSE Append(raws, x * Grain)
  /\ UNCHANGED <<pc, restored, e, c, r>>
Finish == /\ pc = "bound" /\ Len(input) = Len_ /\ pc' = "decode"
          /\ UNCHANGED <<derived, granted, input, exps, codes, raws, enc, restored, e, c, r>>
Decode ==
  /\ pc = "decode" /\ e <= Len(exps)
  /\ LET k == exps[e]
         code == IF c <= Len(codes) THEN codes[c] ELSE -1
         p == Prev(restored)
     IN IF AsIs(k, code)
        THEN /\ restored' = Append(restored, IF r <= Len(raws) THEN raws[r] ELSE -1000)
             /\ r' = r + 1 /\ c' = IF Mode = "code" THEN c + 1 ELSE c
        ELSE /\ restored' = Append(restored, p + 2 * (code - Radius) * Decoded(k))
             /\ c' = c + 1 /\ r' = r
  /\ e' = e + 1
  /\ UNCHANGED <<pc, derived, granted, input, exps, codes, raws, enc>>
Next == Encode \/ Finish \/ Decode
Spec == Init /\ [][Next]_vars

(* the bound granted never exceeds the bound derived *)
GrantedWithin == \A i \in DOMAIN granted : granted[i] <= derived[i]
(* the decoder restores what the encoder takes as context, and all of it, within the derived bounds *)
InStep == \A i \in DOMAIN restored : restored[i] = enc[i]
Within == \A i \in DOMAIN restored : Abs(restored[i] - input[i]) <= derived[i]
UsedUp == (pc = "decode" /\ e > Len(exps)) => (c = Len(codes) + 1 /\ r = Len(raws) + 1)
(* exponents stay within the alphabet announced to the entropy coder *)
InAlphabet == \A i \in DOMAIN exps : exps[i] \in 0..Top
=============================================================================
