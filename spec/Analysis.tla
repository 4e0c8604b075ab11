------------------------------- MODULE Analysis ------------------------------
(***************************************************************************)
(* C06.  Complete analyses with a manufactured solution.                   *)
(* A scenario is a model (nodes, elements, materials, supports) with the   *)
(* displacements u every node is to have (zero where restrained).  The     *)
(* machine visits one element per step and hands each of its nodes the     *)
(* exact force the element needs to be held in its displaced shape:        *)
(*   plane families, affine elements: stiffness (exact energy) times u     *)
(*   any element geometry, linear field: stress times the patch vector     *)
(*   spring, truss: stiffness times elongation along the member            *)
(* The loads of the model are the sums of the forces at each node, and the *)
(* only equilibrium of the supported model under them is u itself.         *)
(* Force entries are <<num, den, mat, l2, pw>>: the force is               *)
(*    modulus(mat) * num / (den * l2^(pw/2)).                              *)
(***************************************************************************)
EXTENDS Integrals, Pipeline, Emit
VARIABLES tr, step, inbox, eqtab
vars == <<tr, step, inbox, eqtab>>
Tr == Scenarios[tr]
ofam == Tr.fam
Plane == ofam # "bars"
NN == IF Plane THEN Len(RefNodes(ofam)) ELSE 2
Conn(e) == Tr.conn[e]
NodeOf(e, a) == Conn(e)[a] + 1
X(e, a, v) == Tr.nodes[NodeOf(e, a)][v] - Tr.nodes[NodeOf(e, 1)][v]
U(e, a, v) == Tr.u[NodeOf(e, a)][v]
Mat(e) == Tr.mats[Tr.mat[e] + 1]      \* <<p, q, ...>>, Poisson ratio p/q
SumNN(g(_)) == FoldLeft(LAMBDA s, b : s + g(b), 0, [b \in 1..NN |-> b])

(* -- affine element: corner edges are the columns of the Jacobian ----------- *)
Half == IF ofam \in {"tri3", "tri6"} THEN 1 ELSE 2
Edge(e, v) == <<X(e, 2, v), X(e, IF Half = 1 THEN 3 ELSE 4, v)>>
(* twice the Jacobian entries for quadrilaterals, once for triangles *)
Cofs(e) == LET a == Edge(e, 1)  b == Edge(e, 2)
           IN  <<<<b[2], -b[1]>>, <<-a[2], a[1]>>>>
DetOf(e) == LET a == Edge(e, 1)  b == Edge(e, 2) IN a[1] * b[2] - a[2] * b[1]
(* the reference point images must be affine: checked by Sound *)
AffineOk(e) == \A a \in 1..NN : \A v \in 1..2 :
    LET z == RefNodes(ofam)[a] IN
    IF Half = 1 THEN 2 * X(e, a, v) = z[1] * X(e, 2, v) + z[2] * X(e, 3, v)
    ELSE 4 * X(e, a, v) = (z[1] + 2) * X(e, 2, v) + (z[2] + 2) * X(e, 4, v)
(* energy product: sum over b of P(x,y)[n][b] * u_b ; the determinant and    *)
(* the two halves of a quadrilateral's Jacobian cancel: cof cof / det        *)
ForceAffine(e, n) ==
    LET cf == Cofs(e)
        m == Mat(e)
        P(x, y, b) == cf[x][1] * cf[y][1] * Tab.grad[ofam][1][1][n][b]
                    + cf[x][1] * cf[y][2] * Tab.grad[ofam][1][2][n][b]
                    + cf[x][2] * cf[y][1] * Tab.grad[ofam][2][1][n][b]
                    + cf[x][2] * cf[y][2] * Tab.grad[ofam][2][2][n][b]
        \* plane stress times 2 (q^2 - p^2) / q
        k11 == 2 * m[2]
        k12 == 2 * m[1]
        k33 == m[2] - m[1]
        fx == SumNN(LAMBDA b : (k11 * P(1, 1, b) + k33 * P(2, 2, b)) * U(e, b, 1)
                             + (k12 * P(1, 2, b) + k33 * P(2, 1, b)) * U(e, b, 2))
        fy == SumNN(LAMBDA b : (k12 * P(2, 1, b) + k33 * P(1, 2, b)) * U(e, b, 1)
                             + (k11 * P(2, 2, b) + k33 * P(1, 1, b)) * U(e, b, 2))
    IN  <<fx, fy>>
DenAffine(e) == LET m == Mat(e) IN
    <<m[2], 2 * (m[2] * m[2] - m[1] * m[1]), DetOf(e), Tab.gden[ofam]>>

(* -- linear field on any geometry ------------------------------------------- *)
ForceLinear(e, n) ==
    LET skew(b) == Tab.grad[ofam][1][2][n][b] - Tab.grad[ofam][2][1][n][b]
        gx == SumNN(LAMBDA b : X(e, b, 2) * skew(b))
        gy == 0 - SumNN(LAMBDA b : X(e, b, 1) * skew(b))
        m == Mat(e)
        l == Tr.lin
        sxx == 2 * (m[2] * l[1][1] + m[1] * l[2][2])
        syy == 2 * (m[1] * l[1][1] + m[2] * l[2][2])
        sxy == (m[2] - m[1]) * (l[1][2] + l[2][1])
    IN  <<sxx * gx + sxy * gy, sxy * gx + syy * gy>>
DenLinear(e) == LET m == Mat(e) IN
    <<m[2], 2 * (m[2] * m[2] - m[1] * m[1]), Tab.gden[ofam]>>

(* -- bars ---------------------------------------------------------------- *)
ForceBar(e, n) ==
    LET dx == X(e, 2, 1)  dy == X(e, 2, 2)
        el == dx * (U(e, 2, 1) - U(e, 1, 1)) + dy * (U(e, 2, 2) - U(e, 1, 2))
        s == IF n = 1 THEN -1 ELSE 1
    IN  <<s * el * dx, s * el * dy>>
Forces(e) == TLCEval([n \in 1..NN |->
    CASE ~Plane -> ForceBar(e, n)
      [] Tr.lin # <<>> -> ForceLinear(e, n)
      [] OTHER -> ForceAffine(e, n)])
(* numerators: the force is  modulus * nums[1] / product of dens (bars:      *)
(* spring k * num / l2, truss E A * num / l2^(3/2))                          *)
Dens(e) == CASE ~Plane -> <<X(e, 2, 1) * X(e, 2, 1) + X(e, 2, 2) * X(e, 2, 2)>>
             [] Tr.lin # <<>> -> DenLinear(e)
             [] OTHER -> DenAffine(e)

Init == /\ tr \in 1..Len(Scenarios)
        /\ step = 1
        /\ inbox = <<>>
        /\ eqtab = <<>>
Number == /\ step = 1
          /\ eqtab' = NumberTable(Tr.cons)
          /\ inbox' = [n \in 1..Len(Tr.nodes) |-> <<>>]
          /\ step' = 2
          /\ UNCHANGED tr
Hold == /\ step >= 2 /\ step - 1 <= Len(Tr.conn)
        /\ LET e == step - 1
               f == Forces(e)
               d == Dens(e)
               mine == {NodeOf(e, a) : a \in 1..NN}
               at(n) == CHOOSE a \in 1..NN : NodeOf(e, a) = n
           IN  inbox' = [n \in 1..Len(Tr.nodes) |->
                  IF n \in mine THEN Append(inbox[n], <<e - 1, f[at(n)], d>>)
                  ELSE inbox[n]]
        /\ step' = step + 1
        /\ UNCHANGED <<tr, eqtab>>
Next == Number \/ Hold
Spec == Init /\ [][Next]_vars
Done == step = Len(Tr.conn) + 2

(* -- properties of the design ---------------------------------------------- *)
(* the manufactured displacements respect the supports                        *)
Supported == step = 2 => \A n \in 1..Len(Tr.nodes) : \A c \in 1..2 :
    Tr.cons[n][c] = -1 => Tr.u[n][c] = 0
(* every node has equations exactly where it is free                          *)
Numbered == step = 2 => eqtab[2] = FreeCount(Tr.cons)
Sound == step = 2 => (Plane /\ Tr.lin = <<>> => \A e \in 1..Len(Tr.conn) : AffineOk(e) /\ DetOf(e) > 0)
LinearField == step = 2 /\ Tr.lin # <<>> =>
    \A n, m \in 1..Len(Tr.nodes) : \A c \in 1..2 :
      Tr.u[n][c] - Tr.u[m][c]
        = Tr.lin[c][1] * (Tr.nodes[n][1] - Tr.nodes[m][1])
        + Tr.lin[c][2] * (Tr.nodes[n][2] - Tr.nodes[m][2])
(* each element's forces are in equilibrium: no resultant, no moment          *)
Balanced == step > 2 =>
    LET e == step - 2
        f(a) == LET b == inbox[NodeOf(e, a)] IN b[Len(b)][2]
    IN  /\ SumNN(LAMBDA a : f(a)[1]) = 0
        /\ SumNN(LAMBDA a : f(a)[2]) = 0
        /\ SumNN(LAMBDA a : X(e, a, 1) * f(a)[2] - X(e, a, 2) * f(a)[1]) = 0
EmitDone == Done => Emit("an" \o ToString(Tr.id), [inbox |-> inbox, neq |-> eqtab[2]])
=============================================================================
