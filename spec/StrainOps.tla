------------------------------- MODULE StrainOps -----------------------------
(***************************************************************************)
(* C14.  Strain operators in physical coordinates.                         *)
(*  "point"    interpolation, Jacobian and gradients at one rational point *)
(*             of a plane, axisymmetric or solid element, exact integers:  *)
(*               N_a = N[a]/nden,  dN_a/dx = G[x][a]/det                   *)
(*               determinant = det/dden^dim,  radius = X/nden              *)
(*  "routine"  position, determinant and strain numerators of the whole    *)
(*             element as polynomials in the reference coordinates, for a  *)
(*             given nodal displacement vector                             *)
(* Place -> Evaluate -> Differentiate, one step each.                      *)
(***************************************************************************)
EXTENDS Integrals, Emit
VARIABLES tr, step, shp, jac, grads
vars == <<tr, step, shp, jac, grads>>
Tr == Scenarios[tr]
ofam == Tr.fam
NN == Len(RefNodes(ofam))
Dm == Dim(ofam)
Nodes == Tr.nodes

GcdSeq(start, t) == FoldLeft(LAMBDA g, r : GcdAll(g, r), start, t)
(* -- evaluation at a point ---------------------------------------------- *)
Evaluate ==
  LET deg == Degree(ofam)
      den == Scale(ofam) * Pow(Tr.q, deg)
      vals == TLCEval(PEvalAll(Tab.basis[ofam], Tr.pt, Tr.q, deg))
      ders == TLCEval([m \in 1..Dm |-> TLCEval(PEvalAll(Tab.diff[ofam][m], Tr.pt, Tr.q, deg))])
      g == GcdSeq(den, ders)
      h == GcdAll(den, vals)
  IN  [N |-> [nd \in 1..NN |-> vals[nd] \div h], nden |-> den \div h,
       D |-> [m \in 1..Dm |-> [nd \in 1..NN |-> ders[m][nd] \div g]], dden |-> den \div g]
SumN(g(_)) == FoldLeft(LAMBDA s, nd : s + g(nd), 0, [nd \in 1..NN |-> nd])
Jac(z) == [m \in 1..Dm |-> [x \in 1..Dm |->
             SumN(LAMBDA nd : z.D[m][nd] * (Nodes[nd][x] - Nodes[1][x]))]]
Cof(g) == IF Dm = 2
    THEN <<<<g[2][2], -g[1][2]>>, <<-g[2][1], g[1][1]>>>>
    ELSE [x \in 1..3 |-> [m \in 1..3 |->
            LET m1 == (m % 3) + 1  m2 == (m1 % 3) + 1
                x1 == (x % 3) + 1  x2 == (x1 % 3) + 1
            IN  g[m1][x1] * g[m2][x2] - g[m1][x2] * g[m2][x1]]]
DetOf(g) == LET c == Cof(g) IN FoldLeft(LAMBDA s, x : s + g[1][x] * c[x][1], 0,
                                        [x \in 1..Dm |-> x])
Gradients(z, g) == LET c == TLCEval(Cof(g)) IN
    [x \in 1..Dm |-> [nd \in 1..NN |->
        FoldLeft(LAMBDA s, m : s + c[x][m] * z.D[m][nd], 0, [m \in 1..Dm |-> m])]]
Radius == SumN(LAMBDA nd : shp.N[nd] * Nodes[nd][1])

(* -- whole element as polynomials ---------------------------------------- *)
(* like terms collected, zero terms dropped *)
Collect(pp) ==
  LET p == TLCEval(pp)
      seen == {<<p[k][2], p[k][3], p[k][4]>> : k \in 1..Len(p)}
      all == [e \in seen |-> Coef(p, e[1], e[2], e[3])]
      seq == SetToSeq({e \in seen : all[e] # 0})
  IN  TLCEval([k \in 1..Len(seq) |-> <<all[seq[k]], seq[k][1], seq[k][2], seq[k][3]>>])
PSumN(g(_)) == Collect(FoldLeft(LAMBDA s, nd : s \o g(nd), <<>>, [nd \in 1..NN |-> nd]))
PosPoly(x) == PSumN(LAMBDA nd : PScale(Nodes[nd][x], Tab.basis[ofam][nd]))
JacPoly == TLCEval([m \in 1..2 |-> TLCEval([x \in 1..2 |->
    PSumN(LAMBDA nd : PScale(Nodes[nd][x] - Nodes[1][x], Tab.diff[ofam][m][nd]))])])
UDer == TLCEval([m \in 1..2 |-> TLCEval([c \in 1..2 |->
    PSumN(LAMBDA nd : PScale(Tr.u[nd][c], Tab.diff[ofam][m][nd]))])])
(* det * d u_c / d x and d y *)
DxPoly(jp, ud, c) == Collect(PSub(PMul(jp[2][2], ud[1][c]), PMul(jp[1][2], ud[2][c])))
DyPoly(jp, ud, c) == Collect(PSub(PMul(jp[1][1], ud[2][c]), PMul(jp[2][1], ud[1][c])))
DetPoly(jp) == Collect(PSub(PMul(jp[1][1], jp[2][2]), PMul(jp[1][2], jp[2][1])))
StrainPoly(jp, ud) == <<DxPoly(jp, ud, 1), DyPoly(jp, ud, 2),
                        Collect(PAdd(DyPoly(jp, ud, 1), DxPoly(jp, ud, 2)))>>

Init == tr \in 1..Len(Scenarios) /\ step = 1 /\ shp = <<>> /\ jac = <<>> /\ grads = <<>>
StepShape == /\ step = 1
             /\ shp' = IF Tr.kind = "point" THEN Evaluate ELSE <<PosPoly(1), PosPoly(2)>>
             /\ UNCHANGED <<jac, grads>>
StepJac == /\ step = 2
           /\ jac' = IF Tr.kind = "point" THEN Jac(shp) ELSE DetPoly(JacPoly)
           /\ UNCHANGED <<shp, grads>>
StepGrad == /\ step = 3
            /\ grads' = IF Tr.kind = "point" THEN Gradients(shp, jac)
                        ELSE StrainPoly(JacPoly, UDer)
            /\ UNCHANGED <<shp, jac>>
Next == (StepShape \/ StepJac \/ StepGrad) /\ step' = step + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Done == step = 4
IsPoint == Done /\ Tr.kind = "point"
IsRoutine == Done /\ Tr.kind = "routine"

Admissible == IsPoint => DetOf(jac) > 0
(* linear fields are differentiated exactly, constants have no gradient *)
LinearExact == IsPoint => \A x \in 1..Dm :
    /\ SumN(LAMBDA nd : grads[x][nd]) = 0
    /\ \A y \in 1..Dm : SumN(LAMBDA nd : grads[x][nd] * (Nodes[nd][y] - Nodes[1][y]))
                          = IF x = y THEN DetOf(jac) ELSE 0
AsSet(p) == {p[k] : k \in 1..Len(p)}
PolyExact == IsRoutine /\ Tr.lin # <<>> =>
    LET e == <<Tr.lin[1][1], Tr.lin[2][2], Tr.lin[1][2] + Tr.lin[2][1]>>
    IN  \A c \in 1..3 : AsSet(grads[c]) = AsSet(Collect(PScale(e[c], jac)))
EmitDone ==
    /\ IsPoint => Emit("op" \o ToString(Tr.id),
         [N |-> shp.N, nden |-> shp.nden, dden |-> shp.dden, det |-> DetOf(jac),
          G |-> grads, X |-> Radius])
    /\ IsRoutine => Emit("op" \o ToString(Tr.id),
         [pos |-> shp, det |-> jac, eps |-> grads, scale |-> Scale(ofam)])
=============================================================================
