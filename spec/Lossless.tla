------------------------------ MODULE Lossless ------------------------------
(***************************************************************************)
(* The lossless stage.  The compressor of the stage (Zstandard) answers    *)
(* with any size up to that of a frame of stored blocks, if the buffer has *)
(* that much room, and fails otherwise.  The stage gives it a buffer of a  *)
(* size it computes from the length of the data, and reports the size of a *)
(* stream that decompresses to the data only if the compressor succeeds.   *)
(*                                                                         *)
(* Lengths are examined one by one: the state is the length, and the size  *)
(* the compressor needed for it, if it is told to need its bound.          *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Top,           \* lengths up to Top in steps that grow with the length
          Small,         \* room for less than 100 bytes
          Tenths         \* room otherwise, in tenths of the length
VARIABLES n, room, needs, phase
vars == <<n, room, needs, phase>>

(* worst case of a Zstandard frame: magic number, descriptor, window, content size, and blocks that are stored as they are *)
Bound(k) == k + 4 + 1 + 1 + (IF k < 256 THEN 1 ELSE IF k < 65792 THEN 2 ELSE 4) + 3 * ((k \div 131072) + 1)
Room(k) == IF k < 100 THEN Small ELSE (k * Tenths) \div 10

Init == n = 0 /\ room = 0 /\ needs = 0 /\ phase = "length"
Allocate == /\ phase = "length" /\ room' = Room(n) /\ phase' = "compress" /\ UNCHANGED <<n, needs>>
Compress == /\ phase = "compress" /\ needs' = Bound(n) /\ phase' = "done" /\ UNCHANGED <<n, room>>
Longer == /\ phase = "done" /\ n < Top
          /\ n' = n + (IF n < 2048 THEN 1 ELSE n \div 1024)
          /\ room' = 0 /\ needs' = 0 /\ phase' = "length"
Next == Allocate \/ Compress \/ Longer
Spec == Init /\ [][Next]_vars
(* the compressor never runs out of room *)
Fits == phase = "done" => needs <= room
=============================================================================
