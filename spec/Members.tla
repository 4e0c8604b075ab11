------------------------------- MODULE Members -------------------------------
(***************************************************************************)
(* C10.  Spring, truss and beam matrices at every orientation.             *)
(* A member runs from the origin to d = (dx, dy), L^2 = dx^2 + dy^2.  With *)
(* the unnormalised axial and transverse vectors d and t = (-dy, dx) every *)
(* entry of a member matrix is an integer times a power of L that is the   *)
(* same for the whole matrix:                                              *)
(*   axial    (EA / L^3)     * ax                                          *)
(*   bending  (EI / L^5)     * bend                                        *)
(*   mass     (rho A / (420 L)) * transverse and axial parts               *)
(*   truss mass (rho A L / 6) * tmass                                      *)
(* The machine forms the local (member axes) matrices and then rotates     *)
(* them, one row per step.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, Emit
CONSTANT Reach      \* all directions with |dx|, |dy| <= Reach
VARIABLES dir, step, ax, bend, bmass, amass
vars == <<dir, step, ax, bend, bmass, amass>>

L2 == dir[1] * dir[1] + dir[2] * dir[2]
Sum6(g(_)) == g(1) + g(2) + g(3) + g(4) + g(5) + g(6)
(* member axes (axial, transverse, rotation at both ends); one local length *)
(* unit is L, so a rotation column carries L and the map to global          *)
(* displacements is d/L, t/L: everything is multiplied by L^2               *)
LocAx == <<<<1,0,0,-1,0,0>>, <<0,0,0,0,0,0>>, <<0,0,0,0,0,0>>,
           <<-1,0,0,1,0,0>>, <<0,0,0,0,0,0>>, <<0,0,0,0,0,0>>>>
LocBend == <<<<0,0,0,0,0,0>>, <<0,12,6,0,-12,6>>, <<0,6,4,0,-6,2>>,
             <<0,0,0,0,0,0>>, <<0,-12,-6,0,12,-6>>, <<0,6,2,0,-6,4>>>>
LocBm == <<<<0,0,0,0,0,0>>, <<0,156,22,0,54,-13>>, <<0,22,4,0,13,-3>>,
           <<0,0,0,0,0,0>>, <<0,54,13,0,156,-22>>, <<0,-13,-3,0,-22,4>>>>
LocAm == <<<<140,0,0,70,0,0>>, <<0,0,0,0,0,0>>, <<0,0,0,0,0,0>>,
           <<70,0,0,140,0,0>>, <<0,0,0,0,0,0>>, <<0,0,0,0,0,0>>>>
(* rows: member axes, columns: global (x, y, rotation), times L; rotations   *)
(* are measured in units of 1/L^2, so that nearly axial members stay small   *)
Rot == LET blk(z, c) == CASE z = 1 -> <<dir[1], dir[2], 0>>[c]
                          [] z = 2 -> <<-dir[2], dir[1], 0>>[c]
                          [] z = 3 -> <<0, 0, 1>>[c]
       IN  [z \in 1..6 |-> [c \in 1..6 |->
              IF (z <= 3) # (c <= 3) THEN 0
              ELSE blk(((z - 1) % 3) + 1, ((c - 1) % 3) + 1)]]
RotRow(loc, c) == LET Qm == Rot IN
    [e \in 1..6 |-> Sum6(LAMBDA z : Qm[z][c] * Sum6(LAMBDA y : loc[z][y] * Qm[y][e]))]

(* The same as quadratic forms in the direction: coefficients of dx^2,       *)
(* dx dy, dy^2, dx, dy and 1.  They agree with the matrices of every         *)
(* direction of the grid, so they are those of every direction whatever      *)
(* (two polynomials of degree 2 that agree on more than 3 by 3 points).      *)
Lin == <<<<<<1,0,0>>, <<0,1,0>>, <<0,0,0>>>>, <<<<0,-1,0>>, <<1,0,0>>, <<0,0,0>>>>,
         <<<<0,0,0>>, <<0,0,0>>, <<0,0,1>>>>>>
LinRot(z, c) == IF (z <= 3) # (c <= 3) THEN <<0, 0, 0>>
                ELSE Lin[((z - 1) % 3) + 1][((c - 1) % 3) + 1]
Times(f, p, q) == <<f * p[1] * q[1], f * (p[1] * q[2] + p[2] * q[1]), f * p[2] * q[2],
                    f * (p[1] * q[3] + p[3] * q[1]), f * (p[2] * q[3] + p[3] * q[2]),
                    f * p[3] * q[3]>>
Forms(loc) == [c \in 1..6 |-> [e \in 1..6 |-> [m \in 1..6 |->
    Sum6(LAMBDA z : Sum6(LAMBDA y : Times(loc[z][y], LinRot(z, c), LinRot(y, e))[m]))]]]
FormAx == Forms(LocAx)
FormBend == Forms(LocBend)
FormBm == Forms(LocBm)
FormAm == Forms(LocAm)
At(f) == f[1] * dir[1] * dir[1] + f[2] * dir[1] * dir[2] + f[3] * dir[2] * dir[2]
         + f[4] * dir[1] + f[5] * dir[2] + f[6]

Init == /\ dir \in (((-Reach..Reach) \X (-Reach..Reach)) \ {<<0, 0>>})
              \cup {Scenarios[n].d : n \in 1..Len(Scenarios)}
        /\ step = 1 /\ ax = <<>> /\ bend = <<>> /\ bmass = <<>> /\ amass = <<>>
Next == /\ step <= 6
        /\ ax' = Append(ax, RotRow(LocAx, step))
        /\ bend' = Append(bend, RotRow(LocBend, step))
        /\ bmass' = Append(bmass, RotRow(LocBm, step))
        /\ amass' = Append(amass, RotRow(LocAm, step))
        /\ step' = step + 1
        /\ UNCHANGED dir
Spec == Init /\ [][Next]_vars
Done == step = 7

Symmetric == Done => \A i, j \in 1..6 :
    /\ ax[i][j] = ax[j][i] /\ bend[i][j] = bend[j][i]
    /\ bmass[i][j] = bmass[j][i] /\ amass[i][j] = amass[j][i]
(* translations and the infinitesimal rotation about the first node         *)
Rigid == {<<1, 0, 0, 1, 0, 0>>, <<0, 1, 0, 0, 1, 0>>,
          <<0, 0, L2, -dir[2], dir[1], L2>>}
NoForce == Done /\ L2 <= 160000 => \A r \in Rigid : \A i \in 1..6 :
    /\ Sum6(LAMBDA j : ax[i][j] * r[j]) = 0
    /\ Sum6(LAMBDA j : bend[i][j] * r[j]) = 0
(* a translation has the whole mass: rho A L, in the directions that move    *)
Mass == Done /\ L2 <= 4000000 => \A i, j \in 1..2 :
    amass[i][j] + amass[i][j + 3] + amass[i + 3][j] + amass[i + 3][j + 3]
    + bmass[i][j] + bmass[i][j + 3] + bmass[i + 3][j] + bmass[i + 3][j + 3]
      = IF i = j THEN 420 * L2 ELSE 0
FormsAgree == Done => \A i, j \in 1..6 :
    /\ At(FormAx[i][j]) = ax[i][j] /\ At(FormBend[i][j]) = bend[i][j]
    /\ At(FormBm[i][j]) = bmass[i][j] /\ At(FormAm[i][j]) = amass[i][j]
EmitForms == Done /\ dir = <<1, 0>> => EmitLine("forms",
    [ax |-> FormAx, bend |-> FormBend, bmass |-> FormBm, amass |-> FormAm])
(* listing the end nodes the other way round is only a permutation           *)
EmitDone == Done => EmitLine("member",
    [d |-> dir, l2 |-> L2, ax |-> ax, bend |-> bend, bmass |-> bmass,
     amass |-> amass])
=============================================================================
