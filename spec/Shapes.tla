-------------------------------- MODULE Shapes -------------------------------
(***************************************************************************)
(* The seven element families: reference nodes and nodal bases.            *)
(* Basis[a] is the polynomial Scale * N_a with integer coefficients.       *)
(* BasisIsNodal (checked by TLC in ShapeFunctions) says that Basis is the  *)
(* basis dual to the nodes, so the definitions below cannot be wrong in a  *)
(* way that matters: N_a(node b) = delta_ab within the polynomial space.   *)
(***************************************************************************)
EXTENDS Poly

One == <<<<1, 0, 0, 0>>>>
V(v) == <<[<<1, 0, 0, 0>> EXCEPT ![v + 1] = 1]>>
Rr == V(1)
Ss == V(2)
Tt == V(3)
PSub(p, q) == PAdd(p, PScale(-1, q))
Ints(c) == <<<<c, 0, 0, 0>>>>

(* reference nodes, doubled so that mid-side nodes of triangles are integer *)
Tri3Nodes == <<<<0,0,0>>, <<2,0,0>>, <<0,2,0>>>>
Tri6Nodes == Tri3Nodes \o <<<<1,0,0>>, <<1,1,0>>, <<0,1,0>>>>
Quad4Nodes == <<<<-2,-2,0>>, <<2,-2,0>>, <<2,2,0>>, <<-2,2,0>>>>
Quad8Nodes == Quad4Nodes \o <<<<0,-2,0>>, <<2,0,0>>, <<0,2,0>>, <<-2,0,0>>>>
Quad9Nodes == Quad8Nodes \o <<<<0,0,0>>>>
Tet4Nodes == <<<<0,0,0>>, <<2,0,0>>, <<0,2,0>>, <<0,0,2>>>>
Hex8Nodes == [n \in 1..8 |-> LET p == Quad4Nodes[((n - 1) % 4) + 1]
                             IN  <<p[1], p[2], IF n <= 4 THEN -2 ELSE 2>>]

(* triangles and tetrahedra: barycentric coordinates *)
BaryTri == <<PSub(PSub(One, Rr), Ss), Rr, Ss>>
BaryTet == <<PSub(PSub(PSub(One, Rr), Ss), Tt), Rr, Ss, Tt>>
(* tri6: L(2L - 1) at corners, 4 L L' at mid sides *)
Corner6(l) == PMul(l, PSub(PScale(2, l), One))
Mid6(l, m) == PScale(4, PMul(l, m))
(* one dimensional Lagrange polynomials at -1, 0, 1 (doubled) *)
Lag(v, at) == IF at = -2 THEN PSub(PMul(V(v), V(v)), V(v))
              ELSE IF at = 2 THEN PAdd(PMul(V(v), V(v)), V(v))
              ELSE PScale(2, PSub(One, PMul(V(v), V(v))))
(* 1 + c x, for a node at x = c/2 *)
Lin(v, c) == PAdd(One, PScale(c \div 2, V(v)))
(* serendipity: corners 1/4 (1+rr0)(1+ss0)(rr0+ss0-1), mid sides            *)
(* 1/2 (1-r^2)(1+ss0) and 1/2 (1+rr0)(1-s^2)                                *)
Ser(nd) == IF nd[1] # 0 /\ nd[2] # 0
           THEN PMul(PMul(Lin(1, nd[1]), Lin(2, nd[2])),
                     PSub(PAdd(PScale(nd[1] \div 2, Rr), PScale(nd[2] \div 2, Ss)), One))
           ELSE IF nd[1] = 0
           THEN PScale(2, PMul(PSub(One, PMul(Rr, Rr)), Lin(2, nd[2])))
           ELSE PScale(2, PMul(Lin(1, nd[1]), PSub(One, PMul(Ss, Ss))))

Families == <<"tri3", "tri6", "quad4", "quad8", "quad9", "tet4", "hex8">>
Dim(f) == IF f \in {"tet4", "hex8"} THEN 3 ELSE 2
RefNodes(f) == CASE f = "tri3" -> Tri3Nodes [] f = "tri6" -> Tri6Nodes
                 [] f = "quad4" -> Quad4Nodes [] f = "quad8" -> Quad8Nodes
                 [] f = "quad9" -> Quad9Nodes [] f = "tet4" -> Tet4Nodes
                 [] f = "hex8" -> Hex8Nodes
Scale(f) == CASE f \in {"tri3", "tri6", "tet4"} -> 1
              [] f \in {"quad4", "quad8", "quad9"} -> 4
              [] f = "hex8" -> 8
Basis(f) ==
    CASE f = "tri3" -> BaryTri
      [] f = "tet4" -> BaryTet
      [] f = "tri6" -> [a \in 1..6 |->
             IF a <= 3 THEN Corner6(BaryTri[a])
             ELSE Mid6(BaryTri[a - 3], BaryTri[((a - 3) % 3) + 1])]
      [] f = "quad4" -> [a \in 1..4 |-> PMul(Lin(1, Quad4Nodes[a][1]),
                                             Lin(2, Quad4Nodes[a][2]))]
      [] f = "quad8" -> [a \in 1..8 |-> Ser(Quad8Nodes[a])]
      [] f = "quad9" -> [a \in 1..9 |-> PMul(Lag(1, Quad9Nodes[a][1]),
                                             Lag(2, Quad9Nodes[a][2]))]
      [] f = "hex8" -> [a \in 1..8 |-> PMul(PMul(Lin(1, Hex8Nodes[a][1]),
                                                 Lin(2, Hex8Nodes[a][2])),
                                            Lin(3, Hex8Nodes[a][3]))]
Degree(f) == CASE f \in {"tri3", "tet4"} -> 1 [] f \in {"tri6", "quad4"} -> 2
               [] f \in {"quad8", "hex8"} -> 3 [] f = "quad9" -> 4
(* monomials that span the space of the family *)
InSpace(f, m) ==
    CASE f \in {"tri3", "tet4"} -> m[2] + m[3] + m[4] <= 1
      [] f = "tri6" -> m[2] + m[3] <= 2 /\ m[4] = 0
      [] f = "quad4" -> m[2] <= 1 /\ m[3] <= 1 /\ m[4] = 0
      [] f = "quad8" -> m[2] + m[3] <= 3 /\ m[2] <= 2 /\ m[3] <= 2 /\ m[4] = 0
      [] f = "quad9" -> m[2] <= 2 /\ m[3] <= 2 /\ m[4] = 0
      [] f = "hex8" -> m[2] <= 1 /\ m[3] <= 1 /\ m[4] <= 1
(* collected coefficient of a monomial *)
Coef(p, i, j, k) == FoldLeft(LAMBDA a, m :
      IF m[2] = i /\ m[3] = j /\ m[4] = k THEN a + m[1] ELSE a, 0, p)
(* Integral over the reference domain, times IntDen(f) *)
IntRef(f, p) == CASE f \in {"tri3", "tri6"} -> IntTri(p)
                  [] f = "tet4" -> IntTet(p)
                  [] f = "hex8" -> IntCube(p)
                  [] OTHER -> IntSquare(p)
IntDen(f) == CASE f \in {"tri3", "tri6"} -> 720 [] f = "tet4" -> 120
               [] f = "hex8" -> 27 [] OTHER -> 225
=============================================================================
