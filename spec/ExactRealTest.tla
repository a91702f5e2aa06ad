--------------------------- MODULE ExactRealTest ---------------------------
(* Checks the accelerated evaluation of ExactReal (bound to module          *)
(* ExactReal by TLC operator overrides) against the definitions, which are  *)
(* evaluated here through the copy ExactRealDef (same text, no overrides).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
R == INSTANCE ExactReal
D == INSTANCE ExactRealDef

Pool == << <<0,0,0,0>>, <<1,0,1,0>>, <<-1,0,1,0>>, <<1,0,3,-1>>, <<-1,0,3,-1>>, <<1,33554432,1,-52>>, <<-1,33554432,1,-52>>,
           <<1,33554432,0,-52>>, <<1,67108863,134217727,-60>>, <<-1,67108863,134217727,-60>>, <<1,40000000,99999999,-30>>,
           <<1,40000000,99999998,-30>>, <<-1,0,8388607,40>>, <<1,0,8388607,-90>>, <<1,0,12345,-20>>, <<1,33554432,134217727,-53>> >>
CONSTANT NPool
N == IF NPool < Len(Pool) THEN NPool ELSE Len(Pool)
VARIABLES i, j, k, m
vars == <<i, j, k, m>>
A == Pool[i]  Bb == Pool[j]  C == Pool[k]  Dd == Pool[m]
AbsC == D!AbsOf(C)
Vec(a) == <<Pool[a], Pool[((a * 5) % N) + 1], Pool[((a * 11 + 3) % N) + 1]>>
Pool4(a) == [z \in 1..4 |-> Pool[((a * z + z) % N) + 1]]
Terms == << << 3, <<A, Bb, Dd>> >>, << -7, <<C, Dd, A>> >>, << 1048576, <<Bb, C>> >>, << -2147483647, <<A>> >> >>
Agree == /\ R!PolySign(Terms) = D!PolySign(Terms)
         /\ R!CrossSign(A, Bb, C, Dd) = D!CrossSign(A, Bb, C, Dd)
         /\ R!Cmp(A, Bb) = D!Cmp(A, Bb)
         /\ R!DetSign(Vec(i), Vec(j), Vec(k)) = D!DetSign(Vec(i), Vec(j), Vec(k))
         /\ R!AbsWithin(A, Bb, AbsC, 20) = D!AbsWithin(A, Bb, AbsC, 20)
         /\ R!AbsExact(A, Bb, AbsC) = D!AbsExact(A, Bb, AbsC)
         /\ R!RelWithin(A, Bb, AbsC, 8) = D!RelWithin(A, Bb, AbsC, 8)
         /\ LET u == <<A, Bb, C, Dd>>  v == Pool4(i + j + k) IN
            /\ R!BiSign(u, 1, 3, 4) = D!BiSign(u, 1, 3, 4)
            /\ R!BiCrossSign(u, v, <<1, 0>>, <<0, 2>>, 2) = D!BiCrossSign(u, v, <<1, 0>>, <<0, 2>>, 2)
            /\ R!BiCrossClear(u, v, <<1, 0>>, <<1, 2>>, 2, <<AbsC, D!AbsOf(A)>>, 3)
               = D!BiCrossClear(u, v, <<1, 0>>, <<1, 2>>, 2, <<AbsC, D!AbsOf(A)>>, 3)
Ms == {x \in {1, 4, 9, 12} : x <= N}
Init == i = 1 /\ j = 1 /\ k \in 1..N /\ m \in Ms
Next == /\ i' \in 1..N /\ j' \in 1..N
        /\ UNCHANGED <<k, m>>
Spec == Init /\ [][Next]_vars
AgreeInv == Agree
(* the sign function takes all three values and each within-test both values on the pool *)
NonVacuous == /\ {R!CrossSign(Pool[a], Pool[b], Pool[c], Pool[2]) : a \in 1..N, b \in 1..N, c \in 1..N} = {-1, 0, 1}
              /\ {R!AbsWithin(Pool[a], Pool[b], D!AbsOf(Pool[c]), 20) : a \in 1..N, b \in 1..N, c \in 1..N} = BOOLEAN
              /\ {R!RelWithin(Pool[a], Pool[b], D!AbsOf(Pool[c]), 8) : a \in 1..N, b \in 1..N, c \in 1..N} = BOOLEAN
ASSUME NonVacuous
============================================================================
