------------------------------ MODULE Quadrature -----------------------------
(***************************************************************************)
(* C16.  What every supported rule must integrate exactly: one state per   *)
(* rule and monomial.  Averages over the domain (the code's triangle and   *)
(* tetrahedron weights sum to one), integrals over the hypercube.          *)
(*   cube: product over the variables of 2/(k+1) for even k, 0 for odd k   *)
(*   simplex of dimension d: d! i! j! k! / (i+j+k+d)!                      *)
(* For the hypercube, exponents up to 2n-1 in each variable; in dimensions *)
(* three and four the machine walks the exponents with a bounded number of *)
(* large ones, see Walk.                                                   *)
(***************************************************************************)
EXTENDS Rat, Emit, FiniteSets
CONSTANTS MaxNd,     \* dimensions 1..MaxNd of the hypercube
          Full       \* TRUE: all exponents in two dimensions
VARIABLES rule, size, expo, stage
vars == <<rule, size, expo, stage>>

Seg(k) == IF k % 2 = 1 THEN <<0, 1>> ELSE Q(2, k + 1)
Cube(e) == FoldLeft(LAMBDA acc, k : RMul(acc, Seg(k)), <<1, 1>>, e)
(* d! e1!...ed!/(sum + d)! as a product of small fractions                    *)
Simplex(e) ==
    LET d == Len(e)
        \* numbers 1..e_n for every variable, and 1..d, over 1..(sum + d)
        tops == FlattenSeq([n \in 1..d |-> [k \in 1..e[n] |-> k]]) \o [k \in 1..d |-> k]
    IN  FoldLeft(LAMBDA acc, k : RMul(acc, Q(tops[k], k)), <<1, 1>>,
                 [k \in 1..Len(tops) |-> k])
Value == IF rule = "cube" THEN Cube(expo) ELSE Simplex(expo)

(* exponents of the hypercube in dimension d: in dimension one and two all    *)
(* (or those on the border), above that at most two different from 0, n, top  *)
CubeExps(n, d) ==
    LET top == 2 * n - 1
        few == {0, 1, 2, top - 1, top}
    IN  IF d = 1 THEN {<<i>> : i \in 0..top}
        ELSE IF d = 2 /\ (Full \/ n <= 4) THEN (0..top) \X (0..top)
        ELSE IF d = 2 THEN (few \X (0..top)) \cup ((0..top) \X few)
        ELSE IF d = 3 THEN few \X few \X few
        ELSE {0, 1, top - 1, top} \X {0, 2, top - 1} \X {0, top - 1, top} \X {0, 2, top}
Init == /\ stage = 0
        /\ \/ /\ rule = "cube"
              /\ size \in 2..10
              /\ \E d \in 1..MaxNd : (d <= 3 \/ size <= 4) /\ expo \in CubeExps(size, d)
           \/ /\ rule = "tri"
              /\ size \in 1..7
              /\ expo \in {e \in (0..size) \X (0..size) : e[1] + e[2] <= size}
           \/ /\ rule = "tet"
              /\ size \in 1..10
              /\ expo \in {e \in (0..size) \X (0..size) \X (0..size) :
                             e[1] + e[2] + e[3] <= size}
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED <<rule, size, expo>>
Spec == Init /\ [][Next]_vars
(* averages of monomials over a simplex lie between 0 and 1; the integrals    *)
(* over the symmetric hypercube vanish exactly for odd exponents              *)
Sane == stage = 1 =>
    /\ rule # "cube" => (Value[1] > 0 /\ Value[1] <= Value[2])
    /\ rule = "cube" => ((Value[1] = 0) <=> \E n \in 1..Len(expo) : expo[n] % 2 = 1)
EmitAll == stage = 1 => EmitLine("quad", [rule |-> rule, n |-> size, e |-> expo,
                                          v |-> Value])
=============================================================================
