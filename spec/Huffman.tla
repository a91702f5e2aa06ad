------------------------------ MODULE Huffman ------------------------------
(***************************************************************************)
(* Entropy coding: the code tree is built by taking the two least frequent *)
(* nodes until one is left; codes are read off the tree; the tree is       *)
(* stored as arrays (left, right, symbol, leaf) in preorder with node      *)
(* numbers in as few bits as the node count needs; symbols become bits.    *)
(* The decoder rebuilds the tree and follows bits until all symbols are    *)
(* there.  Checked on every sequence of at most MaxLen symbols.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS NSym, MaxLen, Widths,       \* numbers of node indices the storage widths can tell apart, increasing
          Variant
EC == INSTANCE EntropyCost
Plain == INSTANCE EntropyCostDef     \* the same text, without accelerated evaluation
VARIABLES msg, noise,
          tree, flat     \* of msg, kept so that they are built once
vars == <<msg, noise, tree, flat>>
Syms == 0..(NSym - 1)
CountIn(m, s) == Cardinality({ i \in DOMAIN m : m[i] = s })
Count(s) == CountIn(msg, s)
Present == { s \in Syms : Count(s) > 0 }

(* trees: <<weight, symbol>> or <<weight, left, right>>; a queue is a sequence ordered by weight, first in first out among equals *)
RECURSIVE Insert(_, _)
Insert(q, t) == IF q = << >> THEN <<t>> ELSE IF t[1] < q[1][1] THEN <<t>> \o q ELSE <<q[1]>> \o Insert(Tail(q), t)
RECURSIVE Leaves(_, _, _)
Leaves(m, s, q) == IF s >= NSym THEN q ELSE Leaves(m, s + 1, LET c == CountIn(m, s) IN IF c > 0 THEN Insert(q, <<c, s>>) ELSE q)
RECURSIVE Combine(_)
Combine(q) == IF Len(q) <= 1 THEN q
              ELSE LET a == q[1]  b == IF Variant = "greedy" /\ Len(q) > 2 THEN q[Len(q)] ELSE q[2]
                       rest == IF Variant = "greedy" /\ Len(q) > 2 THEN SubSeq(q, 2, Len(q) - 1) ELSE SubSeq(q, 3, Len(q))
                   IN Combine(Insert(rest, <<a[1] + b[1], a, b>>))
TreeOf(m) == Combine(Leaves(m, 0, << >>))[1]
IsLeaf(t) == Len(t) = 2
RECURSIVE Code(_, _)      \* the bits of symbol s in tree t, <<2>> if it is not there
Code(t, s) == IF IsLeaf(t) THEN (IF t[2] = s THEN << >> ELSE <<2>>)
              ELSE LET l == Code(t[2], s) IN
                   IF l = <<2>> \/ (l # << >> /\ l[Len(l)] = 2) THEN <<1>> \o Code(t[3], s) ELSE <<0>> \o l
Depth(s) == Len(Code(tree, s))
RECURSIVE Bits(_, _)
Bits(t, m) == IF m = << >> THEN << >> ELSE Code(t, m[1]) \o Bits(t, Tail(m))

(* stored tree: sequence of <<left, right, symbol, leaf>>, numbered in preorder from 0; 0: no child *)
RECURSIVE Flat(_, _)
Flat(t, n) == IF IsLeaf(t) THEN << <<0, 0, t[2], 1>> >>
              ELSE LET l == Flat(t[2], n + 1)  r == Flat(t[3], n + 1 + Len(l)) IN
                   << <<n + 1, n + 1 + Len(l), 0, 0>> >> \o l \o r
NodeCount == Len(flat)
(* the width that is chosen for a node count: the first that is large enough *)
Width == CHOOSE w \in 1..Len(Widths) : NodeCount <= (IF Variant = "offbyone" THEN Widths[w] + 1 ELSE Widths[w])
                                         /\ \A x \in 1..(w - 1) : NodeCount > (IF Variant = "offbyone" THEN Widths[x] + 1 ELSE Widths[x])
Cut(x) == x % Widths[Width]
Stored == [ i \in 1..NodeCount |-> LET f == flat[i] IN << Cut(f[1]), Cut(f[2]), f[3], f[4] >> ]

(* decoder *)
RECURSIVE Follow(_, _, _)        \* <<symbol, bits used>> from node n on
Follow(st, n, b) == IF st[n + 1][4] = 1 THEN <<st[n + 1][3], 0>>
                    ELSE IF b = << >> THEN <<0 - 1, 0>>
                    ELSE LET r == Follow(st, IF b[1] = 0 THEN st[n + 1][1] ELSE st[n + 1][2], Tail(b)) IN <<r[1], r[2] + 1>>
RECURSIVE Decode(_, _, _)        \* <<symbols, bits used>>
Decode(st, k, b) == IF k = 0 THEN << << >>, 0 >>
                    ELSE LET f == Follow(st, 0, b)
                             r == Decode(st, k - 1, SubSeq(b, f[2] + 1, Len(b)))
                         IN << <<f[1]>> \o r[1], f[2] + r[2] >>

Init == msg = << >> /\ noise \in {0, 1} /\ tree = <<0, 0>> /\ flat = << >>
Next == Len(msg) < MaxLen /\ \E s \in Syms : LET m == Append(msg, s)  t == TreeOf(m) IN
          msg' = m /\ tree' = t /\ flat' = Flat(t, 0) /\ UNCHANGED noise
Spec == Init /\ [][Next]_vars

Enc == Bits(tree, msg)
RoundTrip == msg # << >> =>
  LET d == Decode(Stored, Len(msg), Enc \o <<noise, noise, noise>>) IN d[1] = msg /\ d[2] = Len(Enc)
(* no code begins with another one *)
PrefixFree == \A s, t \in Present : s # t =>
  LET a == Code(tree, s)  b == Code(tree, t) IN ~ (Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a)
(* the lengths fill the code space, and no other lengths that fit into it make the message shorter *)
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOf(f, S \ {x})
Kraft(len, S) == SumOf([s \in S |-> 2 ^ (NSym - len[s])], S)
Complete == Cardinality(Present) > 1 => Kraft([s \in Present |-> Depth(s)], Present) = 2 ^ NSym
Shortest == Cardinality(Present) > 1 =>
  \A len \in [Present -> 1..(NSym - 1)] : Kraft(len, Present) <= 2 ^ NSym =>
     SumOf([s \in Present |-> Count(s) * len[s]], Present) >= Len(Enc)
(* the cost that executions are judged by *)
Lengths == [i \in 1..Len(msg) |-> 1 + (i % 2)]    \* and the message as runs of one or two
Spelled == FoldLeft(LAMBDA a, i : a \o [j \in 1..Lengths[i] |-> msg[i]], << >>, [i \in 1..Len(msg) |-> i])
Cost == /\ EC!OptimalBits(msg) = Len(Enc) /\ Plain!OptimalBits(msg) = Len(Enc) /\ EC!Sorted(msg) = Plain!Sorted(msg)
        /\ EC!SortedRuns(msg, Lengths) = Plain!SortedRuns(msg, Lengths)
        /\ EC!OptimalBitsOfRuns(msg, Lengths) = EC!OptimalBits(Spelled)
=============================================================================
