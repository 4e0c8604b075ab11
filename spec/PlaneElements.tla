---------------------------- MODULE PlaneElements ----------------------------
(***************************************************************************)
(* C08 and C09.  Exact stiffness, mass and patch forces of the plane       *)
(* families.  One state machine per element:                               *)
(*   Place     gives the nodes their coordinates                           *)
(*   Row       forms the rows of one node (stiffness, mass, patch forces)  *)
(*   (done)    the matrices are emitted                                    *)
(* Kinds of element geometry:                                              *)
(*   "affine"    image of the reference element under x0 + r j1 + s j2     *)
(*   "straight"  general straight-sided quadrilateral                      *)
(*   "curved"    any nodal positions (patch forces only)                   *)
(* Lengths are integers in units of 1/cden.  Everything is an integer over *)
(* a common denominator, nothing is rounded.                               *)
(***************************************************************************)
EXTENDS Integrals, Emit
(* variable names are distinct from every bound name of the extended     *)
(* modules: otherwise TLC does not tabulate their constants               *)
VARIABLES tr, xy, row, stiff, mass, force
vars == <<tr, xy, row, stiff, mass, force>>
Tr == Scenarios[tr]
ofam == Tr.fam
NN == Len(RefNodes(ofam))
Affine == Tr.kind = "affine"

(* -- geometry ----------------------------------------------------------- *)
Mid(p, q) == <<(p[1] + q[1]) \div 2, (p[2] + q[2]) \div 2>>
Placed ==
    CASE Tr.kind = "affine" ->   \* j1, j2 even, so all nodes are integer
           [n \in 1..NN |-> LET z == RefNodes(ofam)[n] IN
              <<Tr.x0[1] + (z[1] * Tr.j1[1] + z[2] * Tr.j2[1]) \div 2,
                Tr.x0[2] + (z[1] * Tr.j1[2] + z[2] * Tr.j2[2]) \div 2>>]
      [] Tr.kind = "straight" -> \* corners are multiples of 4
           LET c == Tr.corners
               m == [n \in 1..4 |-> Mid(c[n], c[(n % 4) + 1])]
           IN  SubSeq(c \o m \o <<Mid(Mid(c[1], c[2]), Mid(c[3], c[4]))>>, 1, NN)
      [] Tr.kind = "curved" -> Tr.nodes

(* Jacobian of the affine map and its cofactors; x_r = j1, x_s = j2 *)
Det == Tr.j1[1] * Tr.j2[2] - Tr.j1[2] * Tr.j2[1]
Cof == <<<<Tr.j2[2], -Tr.j1[2]>>, <<-Tr.j2[1], Tr.j1[1]>>>>

(* -- stiffness ------------------------------------------------------------ *)
(* P(x, y)[a][b] = Det * gden * integral of (d N_a/dx)(d N_b/dy)           *)
P(x, y, n, b) == Cof[x][1] * Cof[y][1] * Tab.grad[ofam][1][1][n][b]
               + Cof[x][1] * Cof[y][2] * Tab.grad[ofam][1][2][n][b]
               + Cof[x][2] * Cof[y][1] * Tab.grad[ofam][2][1][n][b]
               + Cof[x][2] * Cof[y][2] * Tab.grad[ofam][2][2][n][b]
(* an isotropic law, stress = lambda trace(eps) + 2 mu eps, makes the         *)
(* stiffness lambda times one matrix of geometry plus mu times another; both  *)
(* are formed, so that any modulus and any Poisson ratio can be put in (plane *)
(* stress: lambda = E nu/(1 - nu^2), mu = E/(2 (1 + nu)))                     *)
Lam(n, i, b, j) == P(i, j, n, b)
Shear(n, i, b, j) == P(j, i, n, b) + IF i = j THEN P(1, 1, n, b) + P(2, 2, n, b) ELSE 0
Row2(n, i, entry(_, _, _, _)) ==
    [col \in 1..2 * NN |-> entry(n, i, ((col - 1) \div 2) + 1, ((col - 1) % 2) + 1)]
Parts == {"lam", "mu"}

(* -- mass ------------------------------------------------------------------ *)
(* 16 * determinant of the bilinear map: d0 + d1 r + d2 s                     *)
Corner(n, v) == xy[n][v]
Lr(v) == Corner(2, v) + Corner(3, v) - Corner(1, v) - Corner(4, v)
Ls(v) == Corner(3, v) + Corner(4, v) - Corner(1, v) - Corner(2, v)
Hg(v) == Corner(1, v) + Corner(3, v) - Corner(2, v) - Corner(4, v)
Bilin == <<Lr(1) * Ls(2) - Ls(1) * Lr(2), Lr(1) * Hg(2) - Hg(1) * Lr(2),
           Hg(1) * Ls(2) - Ls(1) * Hg(2)>>
Tri == ofam \in {"tri3", "tri6"}
MassWeights == IF Tri THEN <<16 * Det>> ELSE Bilin
Mrow(n) == LET w == MassWeights
           IN  [b \in 1..NN |-> FoldLeft(LAMBDA s, k : s + w[k] * Tab.mass[ofam][k][n][b],
                                         0, [k \in 1..Len(w) |-> k])]

(* -- patch forces ------------------------------------------------------------ *)
(* gden * integral over the element of d N_n/dx and d N_n/dy, any geometry    *)
Frow(n) ==
    LET skew(b) == Tab.grad[ofam][1][2][n][b] - Tab.grad[ofam][2][1][n][b]
        sum(v) == FoldLeft(LAMBDA s, b : s + xy[b][v] * skew(b), 0,
                           [b \in 1..NN |-> b])
    IN  <<sum(2), -sum(1)>>

(* -- the machine ----------------------------------------------------------- *)
Init == /\ tr \in 1..Len(Scenarios)
        /\ xy = <<>> /\ row = 0 /\ stiff = [part \in Parts |-> <<>>] /\ mass = <<>> /\ force = <<>>
Place == /\ row = 0
         /\ xy' = Placed
         /\ row' = 1
         /\ UNCHANGED <<tr, stiff, mass, force>>
Row == /\ row >= 1 /\ row <= NN
       /\ stiff' = IF Affine
             THEN [lam |-> stiff.lam \o <<Row2(row, 1, Lam), Row2(row, 2, Lam)>>,
                   mu |-> stiff.mu \o <<Row2(row, 1, Shear), Row2(row, 2, Shear)>>]
             ELSE stiff
       /\ mass' = IF Tr.kind = "curved" THEN mass ELSE Append(mass, Mrow(row))
       /\ force' = Append(force, Frow(row))
       /\ row' = row + 1
       /\ UNCHANGED <<tr, xy>>
Next == Place \/ Row
Spec == Init /\ [][Next]_vars
Done == row = NN + 1

(* -- properties of the design ------------------------------------------------ *)
SumTo(n, g(_)) == FoldLeft(LAMBDA s, k : s + g(k), 0, [k \in 1..n |-> k])
Symmetric == Done /\ Affine => \A part \in Parts :
    \A i, j \in 1..2 * NN : stiff[part][i][j] = stiff[part][j][i]
(* translations and the infinitesimal rotation give no forces; a rotation has *)
(* no volume change and no strain, so it is in the kernel of both parts       *)
Objective == Done /\ Affine => \A part \in Parts : LET k == stiff[part] IN
    \A i \in 1..2 * NN :
        /\ SumTo(NN, LAMBDA b : k[i][2 * b - 1]) = 0
        /\ SumTo(NN, LAMBDA b : k[i][2 * b]) = 0
        /\ SumTo(NN, LAMBDA b : (xy[1][2] - xy[b][2]) * k[i][2 * b - 1]
                               + (xy[b][1] - xy[1][1]) * k[i][2 * b]) = 0
(* the strain eps_xx = 1 gives the nodal forces of its stress: lambda in every *)
(* direction and 2 mu along x                                                 *)
Stretch(part, i) == SumTo(NN, LAMBDA b : stiff[part][i][2 * b - 1] * (xy[b][1] - xy[1][1]))
PatchConsistent == Done /\ Affine =>
    \A n \in 1..NN : \A i \in 1..2 :
      /\ Stretch("lam", 2 * n - 2 + i) = Det * force[n][i]
      /\ Stretch("mu", 2 * n - 2 + i) = IF i = 1 THEN 2 * Det * force[n][1] ELSE 0
SelfEquilibrated == Done => /\ SumTo(NN, LAMBDA n : force[n][1]) = 0
                            /\ SumTo(NN, LAMBDA n : force[n][2]) = 0
(* total mass is the area *)
Shoelace == LET c == IF Tri THEN 3 ELSE 4 IN
    SumTo(c, LAMBDA n : xy[n][1] * xy[(n % c) + 1][2] - xy[(n % c) + 1][1] * xy[n][2])
TotalMass == Done /\ Tr.kind # "curved" =>
    /\ \A n, b \in 1..NN : mass[n][b] = mass[b][n]
    /\ SumTo(NN, LAMBDA n : SumTo(NN, LAMBDA b : mass[n][b]))
          = 8 * Tab.mden[ofam] * Shoelace

EmitDone == Done => Emit("ele" \o ToString(Tr.id),
   [xy |-> xy, K |-> stiff.lam, S |-> stiff.mu, M |-> mass, F |-> force,
    kden |-> IF Affine THEN <<Det, Tab.gden[ofam]>> ELSE <<1, 1>>,
    mden |-> 16 * Tab.mden[ofam], fden |-> Tab.gden[ofam]])
=============================================================================
