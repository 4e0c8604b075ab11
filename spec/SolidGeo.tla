------------------------------- MODULE SolidGeo ------------------------------
(***************************************************************************)
(* Geometry of solid elements: cofactors, and the patch vectors of any     *)
(* hexahedron (the integrals of the gradients of its shape functions).     *)
(***************************************************************************)
EXTENDS Integrals
(* cofactors of a 3x3 matrix with rows g[1], g[2], g[3] (derivatives of the  *)
(* position with respect to r, s, t): Cof3(g)[x][m] = det * d ref_m / d x    *)
Cof3(g) == [x \in 1..3 |-> [m \in 1..3 |->
    LET m1 == (m % 3) + 1  m2 == (m1 % 3) + 1
        x1 == (x % 3) + 1  x2 == (x1 % 3) + 1
    IN  g[m1][x1] * g[m2][x2] - g[m1][x2] * g[m2][x1]]]
Det3(g) == LET c == Cof3(g) IN g[1][1] * c[1][1] + g[1][2] * c[2][1] + g[1][3] * c[3][1]
(* patch vectors of a hexahedron by Simpson's rule with 27 points (the        *)
(* integrand has degree two in each variable); unit 1/(8^3 27)                 *)
Grid3 == [k \in 1..27 |-> <<((k - 1) % 3) - 1, (((k - 1) \div 3) % 3) - 1, ((k - 1) \div 9) - 1>>]
Simp(k) == LET z == Grid3[k] IN (IF z[1] = 0 THEN 4 ELSE 1) * (IF z[2] = 0 THEN 4 ELSE 1)
                                * (IF z[3] = 0 THEN 4 ELSE 1)
(* 8 * gradients of the trilinear functions at the integer grid points          *)
HexGrad(z, nd) ==
    LET o == Hex8Nodes[nd]
        e1 == o[1] \div 2  e2 == o[2] \div 2  e3 == o[3] \div 2
    IN  <<e1 * (1 + e2 * z[2]) * (1 + e3 * z[3]), e2 * (1 + e1 * z[1]) * (1 + e3 * z[3]),
          e3 * (1 + e1 * z[1]) * (1 + e2 * z[2])>>
ASSUME TLCSet(78, TLCEval([k \in 1..27 |-> TLCEval([nd \in 1..8 |-> TLCEval(HexGrad(Grid3[k], nd))])]))
HexForces(pts) ==
    LET gr == TLCGet(78)
        jac(k) == [m \in 1..3 |-> [x \in 1..3 |->
            FoldLeft(LAMBDA s, nd : s + gr[k][nd][m] * (pts[nd][x] - pts[1][x]), 0,
                     <<1, 2, 3, 4, 5, 6, 7, 8>>)]]
        cfs == TLCEval([k \in 1..27 |-> TLCEval(Cof3(TLCEval(jac(k))))])
    IN  [nd \in 1..8 |-> [x \in 1..3 |->
          FoldLeft(LAMBDA s, k : s + Simp(k) *
              (gr[k][nd][1] * cfs[k][x][1] + gr[k][nd][2] * cfs[k][x][2]
                + gr[k][nd][3] * cfs[k][x][3]), 0, [k \in 1..27 |-> k])]]
(* patch vectors of a tetrahedron, unit 1/6 *)
TetForces(pts) ==
    LET g == [m \in 1..3 |-> [x \in 1..3 |-> pts[m + 1][x] - pts[1][x]]]
        c == TLCEval(Cof3(g))
    IN  [nd \in 1..4 |-> [x \in 1..3 |->
          IF nd = 1 THEN 0 - c[x][1] - c[x][2] - c[x][3] ELSE c[x][nd - 1]]]
=============================================================================
