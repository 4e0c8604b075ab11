-------------------------------- MODULE Axisym -------------------------------
(***************************************************************************)
(* C12.  The 9-node axisymmetric element.                                  *)
(*                                                                         *)
(* "rect": element x = x0 + a r, z = z0 + b s.  The strain energy is exact *)
(* (free of 1/x) on the fifteen fields                                     *)
(*    radial  x * {1, r} * {1, s, s^2}   (hoop strain {1, r} * {1, s, s^2})*)
(*    axial   {1, r, r^2} * {1, s, s^2}                                    *)
(* so the matrix of mutual energies is known exactly, and every quadrature *)
(* that is exact on the element's own polynomials must return it.          *)
(* "quad": straight-sided element, the four fields with constant strain.   *)
(* The machine forms one row of the energy matrix per step, for both       *)
(* weights: 1 (plain r-z integral) and x (solid of revolution, per radian).*)
(* An entry is <<i, j>>: energy lambda i + mu j, in units of 1/den.        *)
(***************************************************************************)
EXTENDS Integrals, Emit
VARIABLES tr, row, plain, weighted
vars == <<tr, row, plain, weighted>>
Tr == Scenarios[tr]
Rect == Tr.kind = "rect"

(* fields: <<radial?, i, j>> *)
Fields == [k \in 1..15 |-> IF k <= 6 THEN <<1, (k - 1) \div 3, (k - 1) % 3>>
                           ELSE <<0, (k - 7) \div 3, (k - 7) % 3>>]
Mono(i, j) == <<<<1, i, j, 0>>>>
Xp == <<<<Tr.x0, 0, 0, 0>>, <<Tr.a, 1, 0, 0>>>>
Ur(fd) == IF fd[1] = 1 THEN PMul(Xp, Mono(fd[2], fd[3])) ELSE <<>>
Uz(fd) == IF fd[1] = 0 THEN Mono(fd[2], fd[3]) ELSE <<>>
Hoop(fd) == IF fd[1] = 1 THEN Mono(fd[2], fd[3]) ELSE <<>>
(* strains times a b: radial, axial, shear, hoop *)
Strain(fd) == TLCEval(
    <<PScale(Tr.b, PDiff(Ur(fd), 1)), PScale(Tr.a, PDiff(Uz(fd), 2)),
      PAdd(PScale(Tr.a, PDiff(Ur(fd), 2)), PScale(Tr.b, PDiff(Uz(fd), 1))),
      PScale(Tr.a * Tr.b, Hoop(fd))>>)
Trace(e) == PAdd(PAdd(e[1], e[2]), e[4])
(* energy densities, times (a b)^2: the parts that go with lambda and with mu *)
LamPart(e, g) == TLCEval(PMul(Trace(e), Trace(g)))
MuPart(e, g) == TLCEval(PAdd(PScale(2, PAdd(PAdd(PMul(e[1], g[1]), PMul(e[2], g[2])),
                                            PMul(e[4], g[4]))), PMul(e[3], g[3])))
RectRow(k) ==
  LET e == Strain(Fields[k])
      lam == TLCEval([m \in 1..15 |-> LamPart(e, Strain(Fields[m]))])
      mu == TLCEval([m \in 1..15 |-> MuPart(e, Strain(Fields[m]))])
  IN  <<[m \in 1..15 |-> <<IntSquare(lam[m]), IntSquare(mu[m])>>],
        [m \in 1..15 |-> <<IntSquare(PMul(lam[m], Xp)), IntSquare(PMul(mu[m], Xp))>>]>>

(* constant strain fields (x,0), (0,z), (0,x), (0,1): rr, zz, rz, hoop *)
Const == <<<<1, 0, 0, 1>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 0>>>>
ConstDensity(e, g) == <<(e[1] + e[2] + e[4]) * (g[1] + g[2] + g[4]),
    2 * (e[1] * g[1] + e[2] * g[2] + e[4] * g[4]) + e[3] * g[3]>>
Times(v, c) == <<v[1] * c, v[2] * c>>
Cross(k) == LET c == Tr.corners[k]  d == Tr.corners[(k % 4) + 1]
            IN  c[1] * d[2] - c[2] * d[1]
Area2 == Cross(1) + Cross(2) + Cross(3) + Cross(4)
Moment6 == FoldLeft(LAMBDA s, k : s + Cross(k) * (Tr.corners[k][1]
                                                 + Tr.corners[(k % 4) + 1][1]),
                    0, <<1, 2, 3, 4>>)
QuadRow(k) == <<[m \in 1..4 |-> Times(ConstDensity(Const[k], Const[m]), 3 * Area2)],
                [m \in 1..4 |-> Times(ConstDensity(Const[k], Const[m]), Moment6)]>>
Rows == IF Rect THEN 15 ELSE 4

Init == tr \in 1..Len(Scenarios) /\ row = 1 /\ plain = <<>> /\ weighted = <<>>
Next == /\ row <= Rows
        /\ LET rr == IF Rect THEN RectRow(row) ELSE QuadRow(row) IN
             /\ plain' = Append(plain, rr[1])
             /\ weighted' = Append(weighted, rr[2])
        /\ row' = row + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Done == row = Rows + 1

Symmetric == Done => \A k, m \in 1..Rows :
    plain[k][m] = plain[m][k] /\ weighted[k][m] = weighted[m][k]
(* the axial translation stores no energy against any field *)
AxialFree == Done => LET z == IF Rect THEN 7 ELSE 4 IN \A k \in 1..Rows :
    plain[k][z] = <<0, 0>> /\ weighted[k][z] = <<0, 0>>
(* a radial expansion is resisted; away from the axis the weights agree in sign *)
HoopResists == Done => \A w \in 1..2 : plain[1][1][w] > 0 /\ weighted[1][1][w] > 0
(* mass of the rectangle: unit 1/(mden) *)
MassPlain == [n \in 1..9 |-> [m \in 1..9 |-> Tr.a * Tr.b * Tab.mass["quad9"][1][n][m]]]
MassWeighted == [n \in 1..9 |-> [m \in 1..9 |->
    Tr.a * Tr.b * (Tr.x0 * Tab.mass["quad9"][1][n][m] + Tr.a * Tab.mass["quad9"][2][n][m])]]
TotalMass == Done /\ Rect =>
    LET tot(t) == FoldLeft(LAMBDA s, r : s + FoldLeft(LAMBDA w, v : w + v, 0, r), 0, t)
    IN  /\ tot(MassPlain) = 4 * Tr.a * Tr.b * Tab.mden["quad9"]
        /\ tot(MassWeighted) = 4 * Tr.a * Tr.b * Tr.x0 * Tab.mden["quad9"]
EmitDone == Done => Emit("axi" \o ToString(Tr.id),
  IF Rect THEN
    [plain |-> plain, weighted |-> weighted,
     den |-> <<225, Tr.a * Tr.b>>,
     mplain |-> MassPlain, mweighted |-> MassWeighted, mden |-> Tab.mden["quad9"],
     fields |-> Fields]
  ELSE [plain |-> plain, weighted |-> weighted, den |-> <<6, 1>>,
        area |-> 3 * Area2, moment |-> Moment6, mden |-> 6])
=============================================================================
