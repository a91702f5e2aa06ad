------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* The order in which sz3_abs visits the points of a grid: level after     *)
(* level, along the rows' direction (r1), then along the columns' (r2);    *)
(* each line of n points alternates known and predicted ones.  Encoder and *)
(* decoder walk the same way; a point is predicted from points that both   *)
(* of them know by then.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxR, Variant
VARIABLES r1, r2, level, dir, line, seen, bad
vars == <<r1, r2, level, dir, line, seen, bad>>

RECURSIVE Log2Up(_)
Log2Up(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Up((n + 1) \div 2)
MaxOf(a, b) == IF a > b THEN a ELSE b
Stride == 2 ^ (level - 1)
N1 == (r1 - 1) \div Stride + 1
N2 == (r2 - 1) \div Stride + 1

(* the line of n points: which are predicted, and from which (positions on the line) *)
Predicted(n) ==
  IF n <= 1 THEN << >>
  ELSE IF n < 5 THEN
    LET odd == [ k \in 1..((n - 1) \div 2) |-> << 2 * k - 1, {2 * k - 2, 2 * k} >> ]
    IN IF n % 2 = 0 THEN Append(odd, << n - 1, {n - 2} >>) ELSE odd
  ELSE
    LET last == IF n % 2 = 0 THEN n - 3 ELSE n - 2       \* the last one between two known points
        mid == [ k \in 1..((last + 1) \div 2) |->
                   LET i == 2 * k - 1 IN
                   IF i = 1 THEN << 1, {0, 2, 4} >>
                   ELSE IF i = last THEN << i, {i - 3, i - 1, i + 1} >>
                   ELSE << i, {i - 3, i - 1, i + 1, i + 3} >> ]
    IN IF n % 2 = 0 /\ Variant # "notail" THEN Append(mid, << n - 1, {n - 2} >>) ELSE mid

(* position of the k-th point of the current line *)
Point(k) == IF dir = 1 THEN << k * Stride, line >> ELSE << line, k * Stride >>
Inside(p) == p[1] \in 0..(r1 - 1) /\ p[2] \in 0..(r2 - 1)

Init == /\ r1 \in 1..MaxR /\ r2 \in 1..MaxR
        /\ level = Log2Up(MaxOf(r1, r2)) /\ dir = 1 /\ line = 0
        /\ seen = {<<0, 0>>} /\ bad = "none"
LineStep == IF dir = 1 THEN (IF Variant = "step" THEN Stride ELSE 2 * Stride) ELSE Stride
Limit == IF dir = 1 THEN r2 ELSE r1
Len1 == IF dir = 1 THEN N1 ELSE N2
Walk ==         \* one line
  /\ level > 0 /\ line < Limit /\ bad = "none"
  /\ LET w == Predicted(Len1)
         at(i) == Point(w[i][1])
         before(i) == seen \cup { at(j) : j \in 1..(i - 1) } IN
     /\ bad' = IF \E i \in DOMAIN w : ~ Inside(at(i)) THEN "outside"
               ELSE IF \E i \in DOMAIN w : at(i) \in before(i) THEN "twice"
               ELSE IF \E i \in DOMAIN w : \E k \in w[i][2] : Point(k) \notin before(i) THEN "unknown"
               ELSE "none"
     /\ seen' = seen \cup { at(i) : i \in DOMAIN w }
  /\ line' = line + LineStep
  /\ UNCHANGED <<r1, r2, level, dir>>
Turn ==
  /\ level > 0 /\ line >= Limit /\ bad = "none"
  /\ line' = 0
  /\ IF dir = 1 THEN dir' = 2 /\ level' = level ELSE dir' = 1 /\ level' = level - 1
  /\ UNCHANGED <<r1, r2, seen, bad>>
Next == Walk \/ Turn
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sound == bad = "none"
(* at the end of a level exactly the points on its grid are known *)
LevelDone == dir = 1 /\ line = 0 /\ level < Log2Up(MaxOf(r1, r2)) =>
  seen = { <<i, j>> \in (0..(r1 - 1)) \X (0..(r2 - 1)) : i % (2 ^ level) = 0 /\ j % (2 ^ level) = 0 }
Covered == level = 0 => seen = (0..(r1 - 1)) \X (0..(r2 - 1))
Terminates == <>(level = 0)
=============================================================================
