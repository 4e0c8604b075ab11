-------------------------------- MODULE Space --------------------------------
(***************************************************************************)
(* C30.  Models built with element routines handed over by the caller:     *)
(* 8-node quadrilaterals (plane stress), tetrahedra and hexahedra.         *)
(* A scenario has nodes, elements, materials, supports and the             *)
(* displacements u of the nodes: any for tetrahedra, a linear field for    *)
(* the others (gradient lin).  The machine numbers the components and then *)
(* visits one element per step, appending to the inbox of each of its      *)
(* nodes the patch vector v, and records the element's displacement        *)
(* gradient.  The force on the node is  stress(gradient) v / fden.         *)
(***************************************************************************)
EXTENDS SolidGeo, Pipeline, Emit
VARIABLES tr, step, inbox, eqtab, grads
vars == <<tr, step, inbox, eqtab, grads>>
Tr == Scenarios[tr]
ofam == Tr.fam
Dm == IF ofam = "quad8" THEN 2 ELSE 3
NN == CASE ofam = "quad8" -> 8 [] ofam = "tet4" -> 4 [] ofam = "hex8" -> 8
NodeOf(e, a) == Tr.conn[e][a] + 1
Pts(e) == [a \in 1..NN |-> Tr.nodes[NodeOf(e, a)]]
SumNN(g(_)) == FoldLeft(LAMBDA s, b : s + g(b), 0, [b \in 1..NN |-> b])
QuadForces(pts) == [n \in 1..8 |->
    LET skew(b) == Tab.grad["quad8"][1][2][n][b] - Tab.grad["quad8"][2][1][n][b]
    IN  <<SumNN(LAMBDA b : (pts[b][2] - pts[1][2]) * skew(b)),
          0 - SumNN(LAMBDA b : (pts[b][1] - pts[1][1]) * skew(b))>>]
Patch(e) == CASE ofam = "quad8" -> QuadForces(Pts(e))
              [] ofam = "tet4" -> TetForces(Pts(e))
              [] ofam = "hex8" -> HexForces(Pts(e))
FDen == CASE ofam = "quad8" -> Tab.gden["quad8"] [] ofam = "tet4" -> 6
          [] ofam = "hex8" -> 8 * 8 * 8 * 27
(* divergence theorem: dimension v of the sum of position times patch vector   *)
Vol(e, p, v) == SumNN(LAMBDA a : p[a][v] * (Pts(e)[a][v] - Pts(e)[1][v]))
(* gradient of the displacements <<numerators, denominator>>                    *)
Gradient(e, p) ==
    IF Tr.lin # <<>> THEN [num |-> Tr.lin, den |-> 1]
    ELSE [num |-> [i \in 1..Dm |-> [x \in 1..Dm |->
                      SumNN(LAMBDA a : p[a][x] * Tr.u[NodeOf(e, a)][i])]],
          den |-> Vol(e, p, 1)]

Init == /\ tr \in 1..Len(Scenarios)
        /\ step = 1 /\ inbox = <<>> /\ eqtab = <<>> /\ grads = <<>>
Number == /\ step = 1
          /\ eqtab' = NumberTable(Tr.cons)
          /\ inbox' = [n \in 1..Len(Tr.nodes) |-> <<>>]
          /\ step' = 2
          /\ UNCHANGED <<tr, grads>>
Hold == /\ step >= 2 /\ step - 1 <= Len(Tr.conn)
        /\ LET e == step - 1
               p == TLCEval(Patch(e))
               mine == {NodeOf(e, a) : a \in 1..NN}
               at(n) == CHOOSE a \in 1..NN : NodeOf(e, a) = n
           IN  /\ inbox' = [n \in 1..Len(Tr.nodes) |->
                     IF n \in mine THEN Append(inbox[n], <<e - 1, p[at(n)]>>) ELSE inbox[n]]
               /\ grads' = Append(grads, Gradient(e, p))
        /\ step' = step + 1
        /\ UNCHANGED <<tr, eqtab>>
Next == Number \/ Hold
Spec == Init /\ [][Next]_vars
Done == step = Len(Tr.conn) + 2

Supported == step = 2 => \A n \in 1..Len(Tr.nodes) : \A c \in 1..Dm :
    Tr.cons[n][c] = -1 => Tr.u[n][c] = 0
Numbered == step = 2 => eqtab[2] = FreeCount(Tr.cons)
LinearField == step = 2 /\ Tr.lin # <<>> => \A n \in 1..Len(Tr.nodes) : \A c \in 1..Dm :
    Tr.u[n][c] - Tr.u[1][c] = FoldLeft(LAMBDA s, x : s + Tr.lin[c][x] * (Tr.nodes[n][x] - Tr.nodes[1][x]),
                                       0, [x \in 1..Dm |-> x])
Mine(a) == LET b == inbox[NodeOf(step - 2, a)] IN b[Len(b)][2]
(* patch vectors: no resultant, the same positive volume in every direction    *)
(* and no mixed moments                                                         *)
Balanced == step > 2 => LET e == step - 2 IN
    /\ \A x \in 1..Dm : SumNN(LAMBDA a : Mine(a)[x]) = 0
    /\ \A x, y \in 1..Dm :
         LET s == SumNN(LAMBDA a : Mine(a)[x] * (Pts(e)[a][y] - Pts(e)[1][y]))
         IN  IF x = y THEN s > 0 /\ s = Vol(e, [a \in 1..NN |-> Mine(a)], 1) ELSE s = 0
(* the gradient is that of the nodal displacements also for a linear field      *)
OwnGradient == step > 2 /\ Tr.lin # <<>> => LET e == step - 2 IN \A i, x \in 1..Dm :
    SumNN(LAMBDA a : Mine(a)[x] * (Tr.u[NodeOf(e, a)][i] - Tr.u[NodeOf(e, 1)][i]))
      = Tr.lin[i][x] * Vol(e, [a \in 1..NN |-> Mine(a)], 1)
EmitDone == Done => Emit("sp" \o ToString(Tr.id),
    [inbox |-> inbox, eqn |-> eqtab[1], neq |-> eqtab[2], grads |-> grads, fden |-> FDen])
=============================================================================
