------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* The block methods (sz2d, sz3d, with and without bounds per element) cut *)
(* the grid into blocks of a side, the last ones smaller, and walk through *)
(* them and inside them in raster order; dependent blocks predict from the *)
(* previous rows of all blocks, independent ones from their own only.  A   *)
(* buffer of one row of blocks and one row before it carries what a later  *)
(* block needs.  Two dimensions; the third adds a loop of the same kind.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxR, MaxB, Variant
VARIABLES r1, r2, bs, bx, by, done, bad
vars == <<r1, r2, bs, bx, by, done, bad>>
NumX == (r1 - 1) \div bs + 1
NumY == (r2 - 1) \div bs + 1
Side(b, num, r) == IF b = num - 1 THEN (IF Variant = "rest" THEN r % bs ELSE r - b * bs) ELSE bs
Block == << Side(bx, NumX, r1), Side(by, NumY, r2) >>
At(i, j) == << bx * bs + i, by * bs + j >>
Cells == { At(i, j) : i \in 0..(Block[1] - 1), j \in 0..(Block[2] - 1) }
Inside == { <<i, j>> : i \in 0..(r1 - 1), j \in 0..(r2 - 1) }
(* the Lorenzo neighbours of a point are known when it is its turn: they are in earlier blocks, or earlier in this one, or outside *)
Needs(c) == { x \in { <<c[1] - 1, c[2]>>, <<c[1], c[2] - 1>>, <<c[1] - 1, c[2] - 1>> } : x[1] >= 0 /\ x[2] >= 0 }
Earlier(x, c) == x[1] < c[1] \/ (x[1] = c[1] /\ x[2] < c[2])
Init == r1 \in 1..MaxR /\ r2 \in 1..MaxR /\ bs \in 1..MaxB /\ bx = 0 /\ by = 0 /\ done = {} /\ bad = "none"
Step == /\ bx < NumX
        /\ bad' = IF ~ (Cells \subseteq Inside) THEN "outside"
                  ELSE IF Cells \cap done # {} THEN "twice"
                  ELSE IF \E c \in Cells : \E x \in Needs(c) : ~ (x \in done \/ (x \in Cells /\ Earlier(x, c))) THEN "unknown"
                  ELSE bad
        /\ done' = done \cup Cells
        /\ IF by + 1 < NumY THEN by' = by + 1 /\ bx' = bx ELSE by' = 0 /\ bx' = bx + 1
        /\ UNCHANGED <<r1, r2, bs>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Sound == bad = "none"
Covered == bx = NumX => done = Inside
Terminates == <>(bx = NumX)
=============================================================================
