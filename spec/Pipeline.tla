------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* Prediction, quantization and reconstruction, as all methods do it, and  *)
(* that this implements Codec: raster order, two-dimensional Lorenzo       *)
(* prediction from reconstructed neighbours, an index of the bound (0: the *)
(* element is stored exactly) and a quantization index within a radius     *)
(* (else stored exactly), both in the stream.  The decoder has the stream  *)
(* and the dimensions only, and memory of any content.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS R1, R2, Vals, Ebs,      \* Ebs: bounds of elements; 0 asks for the exact value
          Radius, MaxRequests, Variant
N == R1 * R2
VARIABLES streams, outputs, pending,    \* of Codec
          mem,                          \* what fresh memory happens to contain
          left                          \* requests to come
vars == <<streams, outputs, pending, mem, left>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x

(* a key is <<data, bounds>> *)
Within(key, o) == \A i \in 1..N : Abs(o[i] - key[1][i]) <= key[2][i]
C == INSTANCE Codec WITH Allowed <- Within

Row(i) == (i - 1) \div R2   Col(i) == (i - 1) % R2
Pred(f, i) == (IF Row(i) > 0 THEN f[i - R2] ELSE 0) + (IF Col(i) > 0 THEN f[i - 1] ELSE 0)
              - (IF Row(i) > 0 /\ Col(i) > 0 THEN f[i - R2 - 1] ELSE 0)

(* the element, given its prediction: <<index, value after decompression>>; index 0: stored exactly *)
Quantize(x, p, e) ==
  IF e = 0 THEN <<0, x>>
  ELSE LET q == (Abs(x - p) + e) \div (2 * e)
           s == IF x >= p THEN q ELSE 0 - q
           d == p + 2 * e * s
       IN IF (IF Variant = "capacity" THEN q > Radius ELSE q >= Radius) \/ Abs(d - x) > e THEN <<0, x>> ELSE <<s + Radius, d>>

RECURSIVE Encode(_, _, _, _, _)        \* -> <<indices, exact values, reconstruction>>
Encode(key, i, idx, un, rec) ==
  IF i > N THEN <<idx, un>>
  ELSE LET p == IF Variant = "original" THEN Pred(key[1], i) ELSE Pred(rec, i)
           z == Quantize(key[1][i], p, key[2][i])
       IN Encode(key, i + 1, Append(idx, z[1]), IF z[1] = 0 THEN Append(un, key[1][i]) ELSE un, Append(rec, z[2]))
RECURSIVE Decode(_, _, _, _, _)
Decode(idx, un, ebs, i, rec) ==
  IF i > N THEN rec
  ELSE IF idx[i] = 0 THEN Decode(idx, Tail(un), ebs, i + 1, Append(rec, un[1]))
  ELSE Decode(idx, un, ebs, i + 1, Append(rec, Pred(rec, i) + 2 * ebs[i] * (idx[i] - Radius)))

(* the bound of an element that is stored exactly is not needed; what is in its place must not depend on memory *)
Bounds(key, idx) == [i \in 1..N |-> IF idx[i] = 0 THEN (IF Variant = "garbage" THEN mem ELSE 0) ELSE key[2][i]]
StreamOf(key) == LET e == Encode(key, 1, << >>, << >>, << >>) IN << Bounds(key, e[1]), e[1], e[2] >>
OutputOf(s) == LET need == Cardinality({i \in 1..N : s[2][i] = 0}) IN
               IF need > Len(s[3]) THEN [i \in 1..N |-> mem] ELSE Decode(s[2], s[3], s[1], 1, << >>)

Keys == [1..N -> Vals] \X [1..N -> Ebs]
Other == << [i \in 1..N |-> CHOOSE x \in Vals : \A y \in Vals : y <= x], [i \in 1..N |-> i % 2] >>
Init == C!CodecInit /\ mem \in {7, 8} /\ left = MaxRequests
Compress == /\ pending = C!None /\ left > 0
            /\ \E key \in (IF left = MaxRequests THEN Keys ELSE DOMAIN streams \cup {Other}) :
                 /\ streams' = C!Put(streams, key, StreamOf(key))
                 /\ pending' = key
            /\ left' = left - 1 /\ mem' \in {7, 8} /\ UNCHANGED outputs
Decompress == /\ pending # C!None
              /\ outputs' = C!Put(outputs, pending, OutputOf(streams[pending]))
              /\ pending' = C!None /\ mem' \in {7, 8} /\ UNCHANGED <<streams, left>>
Next == Compress \/ Decompress
Spec == Init /\ [][Next]_vars

(* every step is one of the codec's *)
Refines == [][ \/ pending' # C!None /\ C!Compress(pending', streams'[pending'])
               \/ pending # C!None /\ C!Decompress(outputs'[pending]) ]_<<streams, outputs, pending>>
Stable == C!StableAnswers
Allowed == C!AnswersAllowed
(* the decoder takes all that was stored *)
Complete == \A key \in DOMAIN streams : Cardinality({i \in 1..N : streams[key][2][i] = 0}) = Len(streams[key][3])
=============================================================================
