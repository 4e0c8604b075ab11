----------------------------- MODULE NodalAverage ----------------------------
(***************************************************************************)
(* C17.  Strain recovery at nodes.  One element per step: the strains at   *)
(* the integration points next to its nodes are handed to those nodes,     *)
(* together with the element's material.                                   *)
(* The integration points are irrational, so strains are kept exactly as   *)
(* numerator / determinant with both in Z[sqrt d]: a pair <<a, b>> is      *)
(* a + b sqrt d (d = 3 for the quadrilateral, 15 for the triangle).        *)
(***************************************************************************)
EXTENDS Integrals, Emit
VARIABLES tr, ele, inbox
vars == <<tr, ele, inbox>>
Tr == Scenarios[tr]
ofam == Tr.fam
NN == Len(RefNodes(ofam))

(* integration point of each node, <<r, s>> in units of 1/PtDen *)
Root == CASE ofam = "quad4" -> 3 [] OTHER -> 15
PtDen == CASE ofam = "quad4" -> 3 [] ofam = "tri3" -> 6 [] ofam = "tri6" -> 21
Near ==
  CASE ofam = "quad4" -> [nd \in 1..4 |-> [v \in 1..2 |-> <<0, Quad4Nodes[nd][v] \div 2>>]]
    [] ofam = "tri3" -> <<<<<<1, 0>>, <<1, 0>>>>, <<<<4, 0>>, <<1, 0>>>>, <<<<1, 0>>, <<4, 0>>>>>>
    [] ofam = "tri6" ->
       LET s == <<6, -1>>        \* 21 (6 - root 15)/21
           b == <<9, 2>>         \* 21 - 2 s
           m == <<6, 1>>
           e == <<9, -2>>        \* 21 - 2 m
       IN  <<<<s, s>>, <<b, s>>, <<s, b>>, <<m, e>>, <<m, m>>, <<e, m>>>>
(* Z[sqrt d] *)
Add(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Sub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
Times(c, x) == <<c * x[1], c * x[2]>>
Mul(x, y) == <<x[1] * y[1] + Root * x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
SumN(g(_)) == FoldLeft(LAMBDA s, nd : Add(s, g(nd)), <<0, 0>>, [nd \in 1..NN |-> nd])

(* PtDen * Scale * derivatives at the point of node a: the derivatives of the  *)
(* three families are linear in r and s                                        *)
Der(m, nd, at) ==
    LET p == Tab.diff[ofam][m][nd]
    IN  Add(Add(<<PtDen * Coef(p, 0, 0, 0), 0>>, Times(Coef(p, 1, 0, 0), at[1])),
            Times(Coef(p, 0, 1, 0), at[2]))
LinearDerivatives == \A m \in 1..2 : \A nd \in 1..NN : \A k \in 1..Len(Tab.diff[ofam][m][nd]) :
    LET z == Tab.diff[ofam][m][nd][k] IN z[2] + z[3] <= 1 \/ Coef(Tab.diff[ofam][m][nd], z[2], z[3], 0) = 0
ElemNode(row, nd) == row[nd] + 1
Contribution(row, a) ==
  LET at == Near[a]
      dr == TLCEval([m \in 1..2 |-> TLCEval([nd \in 1..NN |-> Der(m, nd, at)])])
      jac == TLCEval([m \in 1..2 |-> TLCEval([x \in 1..2 |-> SumN(LAMBDA nd :
               Times(Tr.nodes[ElemNode(row, nd)][x] - Tr.nodes[ElemNode(row, 1)][x], dr[m][nd]))])])
      ud == TLCEval([m \in 1..2 |-> TLCEval([c \in 1..2 |-> SumN(LAMBDA nd :
               Times(Tr.u[ElemNode(row, nd)][c], dr[m][nd]))])])
      dx(c) == Sub(Mul(jac[2][2], ud[1][c]), Mul(jac[1][2], ud[2][c]))
      dy(c) == Sub(Mul(jac[1][1], ud[2][c]), Mul(jac[2][1], ud[1][c]))
      det == Sub(Mul(jac[1][1], jac[2][2]), Mul(jac[1][2], jac[2][1]))
  IN  <<dx(1), dy(2), Add(dy(1), dx(2)), det>>

Init == /\ tr \in 1..Len(Scenarios)
        /\ ele = 1
        /\ inbox = [nd \in 1..Len(Tr.nodes) |-> <<>>]
Next == /\ ele <= Len(Tr.conn)
        /\ LET row == Tr.conn[ele]
               got == TLCEval([a \in 1..NN |-> Contribution(row, a)])
               \* a node appears once in an element
               who(nd) == CHOOSE a \in 1..NN : row[a] = nd - 1
               mine == {row[a] + 1 : a \in 1..NN}
           IN  inbox' = [nd \in 1..Len(Tr.nodes) |->
                  IF nd \in mine THEN Append(inbox[nd], <<Tr.mat[ele]>> \o got[who(nd)])
                  ELSE inbox[nd]]
        /\ ele' = ele + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Done == ele = Len(Tr.conn) + 1
(* every node hears exactly from the elements that contain it, in order, with  *)
(* their own material                                                          *)
Heard == Done => \A nd \in 1..Len(Tr.nodes) :
    [k \in 1..Len(inbox[nd]) |-> inbox[nd][k][1]]
      = LET mine == SelectSeq([e \in 1..Len(Tr.conn) |-> e],
                              LAMBDA e : \E a \in 1..NN : Tr.conn[e][a] = nd - 1)
        IN  [k \in 1..Len(mine) |-> Tr.mat[mine[k]]]
(* a linear displacement field gives its own strain at every node              *)
LinearExact == Done /\ Tr.lin # <<>> =>
    LET e == <<Tr.lin[1][1], Tr.lin[2][2], Tr.lin[1][2] + Tr.lin[2][1]>> IN
    \A nd \in 1..Len(Tr.nodes) : \A k \in 1..Len(inbox[nd]) : \A c \in 1..3 :
        inbox[nd][k][c + 1] = Times(e[c], inbox[nd][k][5])
Sound == ele = 1 => LinearDerivatives
EmitDone == Done => Emit("avg" \o ToString(Tr.id), [inbox |-> inbox, root |-> Root])
=============================================================================
