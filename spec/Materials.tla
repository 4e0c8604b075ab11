------------------------------ MODULE Materials ------------------------------
(***************************************************************************)
(* C15.  Isotropic elasticity, nu = p/q and E = 1.  The specification is   *)
(* the compliance S (strain = S stress, engineering shear); the stiffness  *)
(* C is obtained from it by elimination, one column per step, and is       *)
(* emitted as integers over a common denominator.                          *)
(*   "plane"  plane stress: xx, yy, xy                                     *)
(*   "solid"  xx, yy, zz, yz, zx, xy                                       *)
(*   "axi"    rr, zz, rz, hoop                                             *)
(*   "strain" plane strain: xx, yy, xy with the compliance that is left when *)
(*            the transverse strain is held at zero                        *)
(***************************************************************************)
EXTENDS Rat, Emit, FiniteSets
CONSTANT MaxQ
VARIABLES kind, nup, nuq, col, cmat
vars == <<kind, nup, nuq, col, cmat>>

Size(k) == CASE k = "plane" -> 3 [] k = "solid" -> 6 [] k = "axi" -> 4 [] k = "strain" -> 3
Shear(k) == CASE k = "plane" -> {3} [] k = "solid" -> {4, 5, 6} [] k = "axi" -> {3} [] k = "strain" -> {3}
(* q * compliance, integer entries *)
S(k, i, j) ==
              IF k = "strain" THEN    \* times q^2
                 (IF i = 3 \/ j = 3 THEN (IF i = j THEN 2 * (nuq + nup) * nuq ELSE 0)
                  ELSE IF i = j THEN (nuq + nup) * (nuq - nup) ELSE -(nuq + nup) * nup)
              ELSE IF i \in Shear(k) \/ j \in Shear(k)
              THEN (IF i = j THEN 2 * (nuq + nup) ELSE 0)
              ELSE (IF i = j THEN nuq ELSE -nup)
(* number of normal components *)
(* (plane strain: as many as in three dimensions) *)
M(k) == IF k = "strain" THEN 3 ELSE Size(k) - Cardinality(Shear(k))
(* (a common factor q is kept apart, so that ratios with large terms fit)    *)
(* column c of the inverse of (a - b) I + b 1 on the normal block, a = q,    *)
(* b = -p; denominators (a - b)(a + (m - 1) b), and 1/(2(q+p)) on the shear  *)
DenA == 2 * (nuq + nup)
DenB(k) == nuq - (M(k) - 1) * nup
Den(k) == DenA * DenB(k)
Column(k, c) == [i \in 1..Size(k) |->
    IF c \in Shear(k) THEN (IF i = c THEN nuq - (M(k) - 1) * nup ELSE 0)
    ELSE IF i \in Shear(k) THEN 0
    ELSE 2 * (IF i = c THEN nuq - (M(k) - 2) * nup ELSE nup)]

Admissible(k) == /\ -nuq < nup
                 /\ IF k = "plane" THEN nup < nuq ELSE 2 * nup < nuq
(* close to the limits of admissibility: incompressible, and nu near -1, 1   *)
Extreme == UNION {{<<-1, q>>, <<q \div 2 - 1, q>>, <<1 - q, q>>, <<q - 1, q>>, <<1, q>>,
                   <<(2 * q) \div 5 + 1, q>>, <<-(3 * q) \div 4, q>>} :
                  q \in {100, 200, 404, 600, 5000, 20000, 1000000, 300000000}}
Init == /\ kind \in {"plane", "solid", "axi", "strain"}
        /\ \/ nuq \in 1..MaxQ /\ nup \in (-MaxQ..MaxQ)
           \/ \E e \in Extreme : nup = e[1] /\ nuq = e[2]
        /\ GCD(RAbs(nup), nuq) = 1 /\ Admissible(kind)
        /\ col = 1 /\ cmat = <<>>
Next == /\ col <= Size(kind)
        /\ cmat' = Append(cmat, Column(kind, col))   \* symmetric: rows = columns
        /\ col' = col + 1
        /\ UNCHANGED <<kind, nup, nuq>>
Spec == Init /\ [][Next]_vars
Done == col = Size(kind) + 1
(* S C = I *)
Inverts == Done /\ nuq <= (IF kind = "strain" THEN 100 ELSE 600) => \A i, j \in 1..Size(kind) :
    FoldLeft(LAMBDA a, k : a + S(kind, i, k) * cmat[k][j], 0, [k \in 1..Size(kind) |-> k])
      = IF i = j THEN (IF kind = "strain" THEN nuq ELSE 1) * Den(kind) ELSE 0
Symmetric == Done => \A i, j \in 1..Size(kind) : cmat[i][j] = cmat[j][i]
Stiff == Done => DenA > 0 /\ DenB(kind) > 0 /\ \A i \in 1..Size(kind) : cmat[i][i] > 0
EmitDone == Done => EmitLine("mat", [kind |-> kind, p |-> nup, q |-> nuq,
                                     C |-> cmat, den |-> <<DenA, DenB(kind)>>])
=============================================================================
