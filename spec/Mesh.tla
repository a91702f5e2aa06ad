-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* The triangulations of the grids, and the tables by which the methods    *)
(* find the triangles (6) and tetrahedra (24) around a vertex: for every   *)
(* shape, every simplex around a vertex is in the table once, and the      *)
(* simplices around a vertex on the border are those of the table that are *)
(* inside.  The triangulations are conforming: an inner edge or face has   *)
(* two sides.                                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VF == INSTANCE VectorField
CONSTANTS Max2, Max3, Variant
VARIABLES r1, r2, r3, p      \* p: a vertex (1..n); r3 = 0: a 2D grid
vars == <<r1, r2, r3, p>>
Is2 == r3 = 0
N == IF Is2 THEN r1 * r2 ELSE r1 * r2 * r3

Init == p = 1 /\ \/ r3 = 0 /\ r1 \in 1..Max2 /\ r2 \in 1..Max2
                 \/ r1 \in 1..Max3 /\ r2 \in 1..Max3 /\ r3 \in 1..Max3
Next == p < N /\ p' = p + 1 /\ UNCHANGED <<r1, r2, r3>>
Spec == Init /\ [][Next]_vars

Range(s) == { s[i] : i \in DOMAIN s }
(* the definition: simplices around p *)
Around2 == { t \in 1..VF!NTri(r1, r2) : p \in Range(VF!Tri(r2, t)) }
Around3 == { t \in 1..VF!NTet(r1, r2, r3) : p \in Range(VF!Tet(r2, r3, t)) }

(* table 2D: the six neighbours in turn, as <<row, column>> offsets; a triangle for each two consecutive ones *)
Ring == << <<-1, 0>>, <<-1, -1>>, <<0, -1>>, <<1, 0>>, <<1, 1>>, <<0, 1>>, <<-1, 0>> >>
Row == (p - 1) \div r2   Col == (p - 1) % r2
In2(o) == Row + o[1] \in 0..(r1 - 1) /\ Col + o[2] \in 0..(r2 - 1)
Vertex2(o) == p + o[1] * r2 + o[2]
Table2 == { << p, Vertex2(Ring[k]), Vertex2(Ring[k + 1]) >> : k \in { z \in 1..6 : In2(Ring[z]) /\ In2(Ring[z + 1]) } }
(* the relaxed method finds the number of the triangle from offsets relative to 2 (i (r2 - 1) + j) *)
CellOffset == LET w == 2 * (r2 - 1) IN << 0 - w - 1, 0 - w - 2, -1, 0, IF Variant = "swap" THEN 0 ELSE 1, 0 - w >>
Number2(k) == 2 * (Row * (r2 - 1) + Col) + CellOffset[k] + 1
Triangles == Is2 =>
  /\ { Range(x) : x \in Table2 } = { Range(VF!Tri(r2, t)) : t \in Around2 }
  /\ Cardinality(Table2) = Cardinality(Around2)
  /\ \A k \in 1..6 : In2(Ring[k]) /\ In2(Ring[k + 1]) =>
        Range(VF!Tri(r2, Number2(k))) = { p, Vertex2(Ring[k]), Vertex2(Ring[k + 1]) }

(* table 3D: for each of the eight cells around p, the tetrahedra of it that touch p; cells as <<layer, row, column>> *)
CellTets == << << <<0, 0, 0>>, {0, 1, 2, 3, 4, 5} >>, << <<0, 0, -1>>, {3, 5} >>, << <<0, -1, 0>>, {1, 4} >>, << <<0, -1, -1>>, {4, 5} >>,
               << <<-1, 0, 0>>, {0, 2} >>, << <<-1, 0, -1>>, {2, 3} >>, << <<-1, -1, 0>>, {0, 1} >>, << <<-1, -1, -1>>, {0, 1, 2, 3, 4, 5} >> >>
P3 == << (p - 1) \div (r2 * r3), ((p - 1) \div r3) % r2, (p - 1) % r3 >>
CellIn(o) == /\ P3[1] + o[1] \in 0..(r1 - 2) /\ P3[2] + o[2] \in 0..(r2 - 2) /\ P3[3] + o[3] \in 0..(r3 - 2)
CellNr(o) == ((P3[1] + o[1]) * (r2 - 1) + P3[2] + o[2]) * (r3 - 1) + P3[3] + o[3]
Table3 == UNION { { 6 * CellNr(CellTets[c][1]) + t + 1 : t \in CellTets[c][2] } : c \in { z \in 1..8 : CellIn(CellTets[z][1]) } }
Tetrahedra == ~ Is2 => Table3 = Around3 /\ Cardinality(Around3) <= 24
(* the cell of a simplex is found from its number *)
Simplices == ~ Is2 => \A t \in Around3 : Cardinality(Range(VF!Tet(r2, r3, t))) = 4

(* conforming: an edge (face) at p that is not on the border has exactly two simplices *)
OnSide(S, f(_), e) == \A x \in S : f(x) = e
Sides2 == Is2 => \A t \in Around2 : \A q \in Range(VF!Tri(r2, t)) \ {p} :
  LET n == Cardinality({ s \in Around2 : q \in Range(VF!Tri(r2, s)) })
      row(x) == (x - 1) \div r2   col(x) == (x - 1) % r2
      S == {p, q}
  IN n = IF OnSide(S, row, 0) \/ OnSide(S, row, r1 - 1) \/ OnSide(S, col, 0) \/ OnSide(S, col, r2 - 1) THEN 1 ELSE 2
Sides3 == ~ Is2 => \A t \in Around3 : \A S \in { X \in SUBSET Range(VF!Tet(r2, r3, t)) : Cardinality(X) = 3 /\ p \in X } :
  LET n == Cardinality({ s \in Around3 : S \subseteq Range(VF!Tet(r2, r3, s)) })
      lay(x) == (x - 1) \div (r2 * r3)   row(x) == ((x - 1) \div r3) % r2   col(x) == (x - 1) % r3
  IN n = IF OnSide(S, lay, 0) \/ OnSide(S, lay, r1 - 1) \/ OnSide(S, row, 0) \/ OnSide(S, row, r2 - 1)
            \/ OnSide(S, col, 0) \/ OnSide(S, col, r3 - 1) THEN 1 ELSE 2
=============================================================================
