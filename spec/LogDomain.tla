----------------------------- MODULE LogDomain -----------------------------
(***************************************************************************)
(* Compression in the logarithmic domain.  A value is a sign and a         *)
(* logarithm (an integer here); zero has no logarithm and is given a       *)
(* stand-in.  The coder of the logarithms is any coder that respects its   *)
(* bound, so a reconstruction is any integer within the bound.             *)
(*                                                                         *)
(*   "pwr"   one bound E; zeros stand 4E below the least logarithm, and    *)
(*           what is decoded more than 2E below it is a zero               *)
(*   "each"  a bound for every element; zeros are stored exactly (bound    *)
(*           zero) just below everything that can be decoded; what decodes *)
(*           to exactly that is a zero                                     *)
(*   "fixed" zeros stand at a constant far below, the threshold is next to *)
(*           it (vector field methods)                                     *)
(*                                                                         *)
(* Scheme "pwr-near" (threshold at E, zeros at 2E), "pwr-tight" (zeros     *)
(* three bounds below, threshold at two: they can meet), "each-near"       *)
(* (stand-in at the least logarithm minus the bound) and "nosign" (the     *)
(* sign bit of a zero is dropped, shifting all later ones) are mistakes.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Scheme, N, MaxLog, Bounds, Far
VARIABLES data, ebs,       \* values <<sign, log>>, bounds
          least, thr,      \* least logarithm so far, what the stream carries
          logs, bits,      \* logarithms and sign bits given to the coders
          out, phase
vars == <<data, ebs, least, thr, logs, bits, out, phase>>

Min(a, b) == IF a < b THEN a ELSE b
Values == {<<0, 0>>} \cup ({-1, 1} \X (-MaxLog..MaxLog))
OneBound == Scheme \in {"pwr", "pwr-near", "pwr-tight"}
NoLeast == MaxLog + 1

Init == /\ data = << >> /\ ebs = << >> /\ least = NoLeast /\ thr = 0
        /\ logs = << >> /\ bits = << >> /\ out = << >> /\ phase = "input"

(* input arrives element by element; the first bound is everybody's in a scheme of one bound *)
Input == /\ phase = "input" /\ Len(data) < N
         /\ \E v \in Values : \E e \in Bounds :
              /\ (OneBound /\ ebs # << >>) => e = ebs[1]
              /\ data' = Append(data, v) /\ ebs' = Append(ebs, e)
              /\ least' = IF v[1] = 0 THEN least ELSE Min(least, v[2])
         /\ UNCHANGED <<thr, logs, bits, out, phase>>

Least == IF least = NoLeast THEN 0 ELSE least
Lowest(k) ==     \* least over all non-zero elements of what Scheme subtracts from, and zero
  LET S == {0} \cup {data[i][2] - (IF k THEN ebs[i] + 1 ELSE ebs[i]) : i \in {j \in 1..Len(data) : data[j][1] # 0}}
  IN CHOOSE m \in S : \A x \in S : m <= x
Threshold == CASE Scheme = "pwr" -> Least - 2 * ebs[1]
               [] Scheme = "pwr-near" -> Least - ebs[1]
               [] Scheme = "pwr-tight" -> Least - 2 * ebs[1]
               [] Scheme = "each" -> Lowest(TRUE)
               [] Scheme = "each-near" -> Lowest(FALSE)
               [] OTHER -> 1 - Far
StandIn == CASE Scheme = "pwr" -> Least - 4 * ebs[1]
             [] Scheme = "pwr-near" -> Least - 2 * ebs[1]
             [] Scheme = "pwr-tight" -> Least - 3 * ebs[1]
             [] Scheme \in {"each", "each-near"} -> Threshold
             [] OTHER -> 0 - Far
(* bound the coder is given for an element *)
CodeBound(i) == IF Scheme \in {"each", "each-near"} /\ data[i][1] = 0 THEN 0
                ELSE IF Scheme \in {"fixed", "nosign"} /\ data[i][1] = 0 THEN 0 ELSE ebs[i]
RECURSIVE SignBits(_)
SignBits(i) == IF i > Len(data) THEN << >>
               ELSE (IF Scheme = "nosign" /\ data[i][1] = 0 THEN << >> ELSE <<data[i][1] < 0>>) \o SignBits(i + 1)
Encode == /\ phase = "input" /\ Len(data) = N
          /\ thr' = Threshold
          /\ logs' = [i \in 1..N |-> IF data[i][1] = 0 THEN StandIn ELSE data[i][2]]
          /\ bits' = SignBits(1)
          /\ phase' = "decode"
          /\ UNCHANGED <<data, ebs, least, out>>

IsZero(x) == IF Scheme \in {"each", "each-near"} THEN x = thr ELSE x < thr
Bit(i) == i <= Len(bits) /\ bits[i]
Decode == /\ phase = "decode" /\ Len(out) < N
          /\ LET i == Len(out) + 1 IN
             \E x \in (logs[i] - CodeBound(i))..(logs[i] + CodeBound(i)) :
               out' = Append(out, IF IsZero(x) THEN <<0, 0>> ELSE <<IF Bit(i) THEN -1 ELSE 1, x>>)
          /\ UNCHANGED <<data, ebs, least, thr, logs, bits, phase>>
Next == Input \/ Encode \/ Decode
Spec == Init /\ [][Next]_vars

(* the contract: zeros are zeros, signs are signs, and logarithms are within their bound *)
Contract == \A i \in 1..Len(out) :
  IF data[i][1] = 0 THEN out[i] = <<0, 0>>
  ELSE /\ out[i][1] = data[i][1]
       /\ out[i][2] - data[i][2] \in (0 - ebs[i])..ebs[i]

=============================================================================
