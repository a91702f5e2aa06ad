------------------------------ MODULE Sampling ------------------------------
(***************************************************************************)
(* The walks over a 3D array that estimate the mean and the spread of the  *)
(* prediction errors (sample_rough_mean_3d, optimize_quant_invl_3d).       *)
(* Both advance by a distance and are corrected at the end of a row and of *)
(* a layer; the second reads the neighbours of a position, too.  They have *)
(* to stay inside the array and to come to an end.                         *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS MaxR,          \* all grids up to MaxR^3
          Distances,     \* distances of the second walk
          LeastDistance  \* the first walk's distance is at least this (less than 3: a mistake)
VARIABLES r1, r2, r3, walk, dist, p, c1, c2, n1, n2, last
vars == <<r1, r2, r3, walk, dist, p, c1, c2, n1, n2, last>>

Size == r1 * r2 * r3
Root(n) == CHOOSE d \in 0..n : d * d <= n /\ (d + 1) * (d + 1) > n
Max(a, b) == IF a > b THEN a ELSE b
Start(w, d) ==
  /\ walk = w
  /\ last = -1
  /\ IF w = "mean" THEN dist = Max(Root(Size), LeastDistance) /\ p = 0 /\ c1 = 0 /\ c2 = 0 /\ n1 = 0 /\ n2 = 0
     ELSE dist = d /\ c1 = d - 2 /\ c2 = 0 /\ n1 = 1 /\ n2 = 1 /\ p = r2 * r3 + r3 + d - 2
Init == /\ r1 \in 1..MaxR /\ r2 \in 1..MaxR /\ r3 \in 1..MaxR
        /\ \E w \in {"mean", "spread"} : \E d \in Distances : Start(w, d)

Mean == /\ walk = "mean" /\ p < Size
        /\ last' = p
        /\ LET a == c1 + dist  b == c2 + dist IN
           /\ c1' = IF a >= r3 THEN 0 ELSE a
           /\ c2' = IF b >= r2 * r3 THEN 0 ELSE b
           /\ p' = p + dist - (IF a >= r3 THEN 1 ELSE 0) - (IF b >= r2 * r3 THEN 1 ELSE 0)
        /\ UNCHANGED <<r1, r2, r3, walk, dist, n1, n2>>
Spread == /\ walk = "spread" /\ p < Size
          /\ last' = p
          /\ LET a == c1 + dist IN
             IF a >= r3
             THEN LET wrap == n2 + 1 = r2
                      m1 == IF wrap THEN n1 + 1 ELSE n1
                      m2 == IF wrap THEN 1 ELSE n2 + 1
                      b == (m1 + m2) % dist IN
                  /\ n1' = m1 /\ n2' = m2 /\ c2' = b
                  /\ p' = p + (IF wrap THEN r3 ELSE 0) + (r3 + dist - a) + (dist - b)
                  /\ c1' = IF dist - b = 0 THEN 1 ELSE dist - b
             ELSE c1' = a /\ p' = p + dist /\ UNCHANGED <<c2, n1, n2>>
          /\ UNCHANGED <<r1, r2, r3, walk, dist>>
Next == Mean \/ Spread
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Inside == p < Size => /\ p >= 0
                      /\ walk = "spread" => p - r2 * r3 - r3 - 1 >= 0
\* the first never stands still; the second may go back where the phase of a row asks for it
Onward == walk = "mean" => p > last
Ends == <>(p >= Size)
=============================================================================
