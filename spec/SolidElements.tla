---------------------------- MODULE SolidElements ----------------------------
(***************************************************************************)
(* C11.  Exact stiffness, mass and patch forces of the 4-node tetrahedron  *)
(* and the 8-node hexahedron.  One machine per element: Place, then one    *)
(* Row per node, then the matrices are emitted.                            *)
(*   "affine"     image of the reference element, columns j1, j2, j3       *)
(*   "distorted"  hexahedron with any nodes: patch forces and volume       *)
(* The stiffness is lambda times one matrix of geometry plus mu times      *)
(* another; both are formed, for any modulus and any Poisson ratio.        *)
(***************************************************************************)
EXTENDS SolidGeo, Emit
VARIABLES tr, xyz, row, stiff, mass, force
vars == <<tr, xyz, row, stiff, mass, force>>
Tr == Scenarios[tr]
ofam == Tr.fam
NN == Len(RefNodes(ofam))
Affine == Tr.kind = "affine"

Placed == IF Affine
    THEN [nd \in 1..NN |-> [v \in 1..3 |-> LET z == RefNodes(ofam)[nd] IN
            Tr.x0[v] + (z[1] * Tr.j[1][v] + z[2] * Tr.j[2][v] + z[3] * Tr.j[3][v]) \div 2]]
    ELSE Tr.nodes

Cof == Cof3(Tr.j)
Det == Det3(Tr.j)

Parts == {"lam", "mu"}

(* rows of node a: P(x, y)[b] = Det * gden * integral of N_a,x N_b,y          *)
Krows(nd) ==
  LET cf == TLCEval(Cof)
      g == Tab.grad[ofam]
      Pt == TLCEval([x \in 1..3 |-> TLCEval([y \in 1..3 |-> TLCEval([nb \in 1..NN |->
              FoldLeft(LAMBDA s, k :
                 s + cf[x][((k - 1) \div 3) + 1] * cf[y][((k - 1) % 3) + 1]
                     * g[((k - 1) \div 3) + 1][((k - 1) % 3) + 1][nd][nb],
                 0, <<1, 2, 3, 4, 5, 6, 7, 8, 9>>)])])])
      tracep == TLCEval([nb \in 1..NN |-> Pt[1][1][nb] + Pt[2][2][nb] + Pt[3][3][nb]])
      rows(entry(_, _, _)) == [i \in 1..3 |-> [col \in 1..3 * NN |->
         entry(i, ((col - 1) \div 3) + 1, ((col - 1) % 3) + 1)]]
  IN  [lam |-> rows(LAMBDA i, nb, j : Pt[i][j][nb]),
       mu |-> rows(LAMBDA i, nb, j : Pt[j][i][nb] + (IF i = j THEN tracep[nb] ELSE 0))]
Mrow(nd) == [nb \in 1..NN |-> Det * Tab.mass[ofam][1][nd][nb]]

(* patch forces: integral of N_a,x.  Affine: from the table of gradients       *)
(* against a linear field; distorted hexahedron: Simpson's rule with 27 points *)
(* (the integrand has degree two in each variable); unit 1/(8^3 27)            *)
DistForces == HexForces(xyz)
(* affine: int N_a,x = (1/Det) Cof[x][m] Det int d_m N_a; int d_m N_a comes     *)
(* from the gradient table, as sum_b d_m N_a d_1 (r_b N_b), r = first reference  *)
(* coordinate (halved nodes)                                                    *)
AffForces == [nd \in 1..NN |-> [x \in 1..3 |->
    FoldLeft(LAMBDA s, m : s + Cof[x][m] *
        FoldLeft(LAMBDA w, nb : w + RefNodes(ofam)[nb][1] * Tab.grad[ofam][m][1][nd][nb], 0,
                 [nb \in 1..NN |-> nb]), 0, <<1, 2, 3>>)]]
ForceDen == IF Affine THEN 2 * Tab.gden[ofam] ELSE 8 * 8 * 8 * 27

Init == /\ tr \in 1..Len(Scenarios)
        /\ xyz = <<>> /\ row = 0 /\ stiff = [part \in Parts |-> <<>>] /\ mass = <<>> /\ force = <<>>
Place == /\ row = 0
         /\ xyz' = Placed
         /\ row' = 1
         /\ UNCHANGED <<tr, stiff, mass, force>>
Row == /\ row >= 1 /\ row <= NN
       /\ IF Affine THEN LET k == Krows(row) IN
               /\ stiff' = [part \in Parts |-> stiff[part] \o k[part]]
               /\ mass' = Append(mass, Mrow(row))
          ELSE UNCHANGED <<stiff, mass>>
       /\ force' = IF row = 1 THEN (IF Affine THEN AffForces ELSE DistForces) ELSE force
       /\ row' = row + 1
       /\ UNCHANGED <<tr, xyz>>
Next == Place \/ Row
Spec == Init /\ [][Next]_vars
Done == row = NN + 1

SumTo(n, g(_)) == FoldLeft(LAMBDA s, k : s + g(k), 0, [k \in 1..n |-> k])
Symmetric == Done /\ Affine => \A part \in Parts : \A i, j \in 1..3 * NN :
    stiff[part][i][j] = stiff[part][j][i]
(* three translations and three infinitesimal rotations, in both parts *)
Objective == Done /\ Affine => \A part \in Parts : LET k == stiff[part] IN
  \A i \in 1..3 * NN :
    /\ \A x \in 1..3 : SumTo(NN, LAMBDA nb : k[i][3 * nb - 3 + x]) = 0
    /\ \A x \in 1..3 : LET y == (x % 3) + 1 IN
         SumTo(NN, LAMBDA nb : (xyz[nb][x] - xyz[1][x]) * k[i][3 * nb - 3 + y]
                             - (xyz[nb][y] - xyz[1][y]) * k[i][3 * nb - 3 + x]) = 0
(* u_x = x gives the forces of the stress (lambda + 2 mu, lambda, lambda) *)
Stretch(part, i) == SumTo(NN, LAMBDA nb : (xyz[nb][1] - xyz[1][1]) * stiff[part][i][3 * nb - 2])
PatchConsistent == Done /\ Affine => \A nd \in 1..NN : \A i \in 1..3 :
    /\ 2 * Stretch("lam", 3 * nd - 3 + i) = Det * force[nd][i]
    /\ 2 * Stretch("mu", 3 * nd - 3 + i) = IF i = 1 THEN 2 * Det * force[nd][1] ELSE 0
SelfEquilibrated == Done => \A x \in 1..3 : SumTo(NN, LAMBDA nd : force[nd][x]) = 0
(* volume from the divergence theorem is the same in the three directions *)
Volume(x) == SumTo(NN, LAMBDA nd : force[nd][x] * (xyz[nd][x] - xyz[1][x]))
SameVolume == Done => Volume(1) = Volume(2) /\ Volume(2) = Volume(3) /\ Volume(1) > 0
MassTotal == Done /\ Affine => \A nd, nb \in 1..NN : mass[nd][nb] = mass[nb][nd]
EmitDone == Done => Emit("ele" \o ToString(Tr.id),
   [xyz |-> xyz, K |-> stiff.lam, S |-> stiff.mu, M |-> mass, F |-> force,
    kden |-> IF Affine THEN <<Det, Tab.gden[ofam]>> ELSE <<1, 1>>,
    mden |-> Tab.mden[ofam], fden |-> ForceDen])
=============================================================================
