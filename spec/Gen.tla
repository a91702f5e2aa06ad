-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Enumerates small requests exhaustively, or every Stride-th of them: one *)
(* state for each, which prints it.  They are replayed against the code;   *)
(* the answers are judged by TraceCodec like any other recording.          *)
(* A request is <<op, typ, r1, r2, r3, eb (in 1/1024), bsize, bi, arrays   *)
(* of integers>>.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Kind, Ops, Typs, Ebs, Stride, Offset, Base, Len1

Digit(n, b, i) == (n \div (b ^ (i - 1))) % b
Ternary(n, i) == Digit(n, 3, i) - 1
Req(op, typ, r1, r2, r3, eb, bsize, bi, arrays) == <<op, typ, r1, r2, r3, eb, bsize, bi, arrays>>

VARIABLES n,                \* number of the input
          op, typ, eb, len  \* what is asked about it
vars == <<n, op, typ, eb, len>>

(* how many inputs there are *)
Limit == CASE Kind = "fields22" -> 3 ^ 8          \* 2D vector fields on a 2 x 2 grid, components in -1..1
           [] Kind = "fields23" -> 3 ^ 12         \* on a 2 x 3 or 3 x 2 grid
           [] Kind = "tets" -> 3 ^ 12             \* one tetrahedron as a mesh of four vertices
           [] Kind = "cubes" -> 2 ^ 24            \* 2 x 2 x 2 grids of two-valued components
           [] Kind = "scalars" -> 4 ^ 4           \* scalar 2 x 2 and 1 x 4 grids of values in -1..2
           [] Kind = "symbols" -> Base ^ len      \* symbol sequences of length len over 0..Base-1
           [] Kind = "flags" -> 2 ^ len           \* flag sequences of length len
           [] Kind = "bytes" -> 3 ^ len           \* byte strings of length len over three bytes

Part(f, from, to) == [i \in 1..(to - from + 1) |-> f[from + i - 1]]
Request ==
  CASE Kind = "fields22" -> LET d == [i \in 1..8 |-> Ternary(n, i)] IN
         Req(op, typ, 2, 2, 1, eb, 0, 0, << Part(d, 1, 4), Part(d, 5, 8) >>)
    [] Kind = "fields23" -> LET d == [i \in 1..12 |-> Ternary(n, i)]  w == 2 + (n % 2) IN
         Req(op, typ, w, 5 - w, 1, eb, 0, 0, << Part(d, 1, 6), Part(d, 7, 12) >>)
    [] Kind = "tets" -> LET d == [i \in 1..12 |-> Ternary(n, i)] IN
         Req(op, typ, 4, 1, 1, eb, 0, 0, << [i \in 1..12 |-> 0], d, <<0, 1, 2, 3>> >>)
    [] Kind = "cubes" -> LET d == [i \in 1..24 |-> 2 * Digit(n, 2, i) - 1 + (IF (n + i) % 5 = 0 THEN 1 ELSE 0)] IN
         Req(op, typ, 2, 2, 2, eb, 0, 0, << Part(d, 1, 8), Part(d, 9, 16), Part(d, 17, 24) >>)
    [] Kind = "scalars" -> LET d == [i \in 1..4 |-> Digit(n, 4, i) - 1]
                               b == [i \in 1..4 |-> eb * Digit(7 * n + 5, 3, i)]  w == 1 + (n % 2) IN
         Req(op, typ, w, 4 \div w, 1, eb, 4 + (n % 3), (n \div 2) % 2, IF op \in {"sz2d_eb", "pwr2d_eb"} THEN << d, b >> ELSE << d >>)
    [] Kind = "symbols" -> Req("huffman", "float", eb, 1, 1, 0, 0, 0, << [i \in 1..len |-> Digit(n, Base, i)] >>)
    [] Kind = "flags" -> Req("bits", "float", len, 1, 1, 0, 0, 0, << [i \in 1..len |-> Digit(n, 2, i)] >>)
    [] Kind = "bytes" -> Req("lossless", "float", len, 1, 1, 1024 * eb, 0, 0, << [i \in 1..len |-> 127 * Digit(n, 3, i)] >>)

Init == /\ op \in Ops /\ typ \in Typs /\ eb \in Ebs /\ len \in Len1
        /\ n = Offset /\ n < Limit
Next == /\ n' = n + Stride /\ n' < Limit
        /\ UNCHANGED <<op, typ, eb, len>>
Spec == Init /\ [][Next]_vars
Emit == PrintT(<<"G", Request>>)
=============================================================================
