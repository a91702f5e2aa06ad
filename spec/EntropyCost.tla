---------------------------- MODULE EntropyCost ----------------------------
(* The number of bits an optimal prefix code spends on a sequence of        *)
(* symbols: the sum of the weights of the inner nodes of a Huffman tree,    *)
(* by the two-queue construction.  Module Huffman checks that no prefix     *)
(* code spends less.                                                        *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
Distinct(m) == { m[i] : i \in DOMAIN m }
Frequencies(m) == FoldLeft(LAMBDA f, x : [f EXCEPT ![x] = @ + 1], [x \in Distinct(m) |-> 0], m)
(* the frequencies in increasing order *)
Sorted(m) == LET f == Frequencies(m)
                 s == SetToSeq(Distinct(m)) IN SortSeq([i \in 1..Len(s) |-> f[s[i]]], <)
(* leaves q, next leaf i; inner nodes made so far, next one j; cost so far *)
Step(q, st) ==
  LET take(i, j, made) == IF i <= Len(q) /\ (j > Len(made) \/ q[i] <= made[j]) THEN <<q[i], i + 1, j>> ELSE <<made[j], i, j + 1>>
      a == take(st[1], st[2], st[3])
      b == take(a[2], a[3], st[3])
      w == a[1] + b[1]
  IN << b[2], b[3], Append(st[3], w), st[4] + w >>
BitsFor(q) == IF q = << >> THEN 0
              ELSE FoldLeft(LAMBDA st, x : Step(q, st), << 1, 1, << >>, 0 >>, [i \in 1..(Len(q) - 1) |-> i])[4]
OptimalBits(m) == BitsFor(Sorted(m))
(* the same for a sequence given as runs: values v and lengths c *)
RunFrequencies(v, c) == FoldLeft(LAMBDA f, i : [f EXCEPT ![v[i]] = @ + c[i]], [x \in Distinct(v) |-> 0], [i \in 1..Len(v) |-> i])
SortedRuns(v, c) == LET f == RunFrequencies(v, c)
                        s == SetToSeq(Distinct(v)) IN SortSeq([i \in 1..Len(s) |-> f[s[i]]], <)
OptimalBitsOfRuns(v, c) == BitsFor(SortedRuns(v, c))
=============================================================================
