------------------------------ MODULE RelaxCp ------------------------------
(***************************************************************************)
(* The relaxed method on a whole grid: a vertex next to a triangle with a  *)
(* critical point is stored exactly; any other is quantized with the       *)
(* requested bound and kept if no adjacent triangle gains a critical       *)
(* point, else tried again with a smaller bound, at last stored exactly.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE IntGeo
CONSTANTS R1, R2, Vals, Unit, Eb, MaxTries, Variant
N == R1 * R2
VARIABLES u, v, pos, eb, tries, present, exact
vars == <<u, v, pos, eb, tries, present, exact>>

(* triangles as in VectorField *)
NTri == 2 * (R1 - 1) * (R2 - 1)
Tri(t) == LET cell == (t - 1) \div 2
              a == (cell \div (R2 - 1)) * R2 + (cell % (R2 - 1)) + 1
          IN << a, IF t % 2 = 1 THEN a + R2 ELSE a + 1, a + R2 + 1 >>
At(f, T) == << f[T[1]], f[T[2]], f[T[3]] >>
Around(p) == { t \in 1..NTri : \E i \in 1..3 : Tri(t)[i] = p }
HasAt(f, g, t) == Has(At(f, Tri(t)), At(g, Tri(t)))

(* odd-spaced domain: Vals on a sample of vertices, others derived, to bound the number of fields *)
Init == /\ u \in [1..N -> {Unit * x : x \in Vals}] /\ v \in [1..N -> {Unit * x : x \in Vals}]
        /\ u[1] >= v[1] /\ v[1] >= 0
        /\ pos = 1 /\ eb = Eb /\ tries = 0
        /\ present = { t \in 1..NTri : HasAt(u, v, t) }
        /\ exact = {}
Next1 == pos' = pos + 1 /\ eb' = Eb /\ tries' = 0
Store == /\ pos <= N
         /\ Variant # "blind"
         /\ Around(pos) \cap present # {} \/ (u[pos] = 0 /\ v[pos] = 0)
         /\ exact' = exact \cup {pos}
         /\ Next1 /\ UNCHANGED <<u, v, present>>
(* any value within the bound at hand can come out of the quantizer *)
Try == /\ pos <= N
       /\ Variant = "blind" \/ ~ (Around(pos) \cap present # {} \/ (u[pos] = 0 /\ v[pos] = 0))
       /\ \E du, dv \in (0 - eb)..eb :
            LET nu == [u EXCEPT ![pos] = @ + du]  nv == [v EXCEPT ![pos] = @ + dv]
                bad == \E t \in Around(pos) : HasAt(nu, nv, t) IN
            IF ~ bad \/ Variant = "unverified" THEN u' = nu /\ v' = nv /\ Next1 /\ UNCHANGED exact
            ELSE IF tries < MaxTries THEN UNCHANGED <<u, v, pos, exact>> /\ eb' = eb \div 2 /\ tries' = tries + 1
            ELSE UNCHANGED <<u, v>> /\ exact' = exact \cup {pos} /\ Next1
       /\ UNCHANGED present
Next == Store \/ Try
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

CpKept == { t \in 1..NTri : HasAt(u, v, t) } = present
VerticesExact == \A t \in present : \A i \in 1..3 : Tri(t)[i] < pos => Tri(t)[i] \in exact
Terminates == <>(pos > N)
=============================================================================
