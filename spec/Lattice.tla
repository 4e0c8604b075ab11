------------------------------- MODULE Lattice -------------------------------
(***************************************************************************)
(* C36.  An infinite periodic structure of springs or of three-node        *)
(* triangles, and the fields that change by i^q_j from a cell to the next  *)
(* along the cell vector a_j (Bloch waves with quarter-turn phases, so that*)
(* every number is a Gaussian integer).                                    *)
(*                                                                         *)
(* A scenario draws one cell: nodes with coordinates, the reference node   *)
(* and the whole cell offset of each, and elements between drawn nodes.    *)
(* The machine adds one element at a time.  Node n moves by i^(q.off) times*)
(* the motion of its reference, and the forces on it count for the         *)
(* reference turned back by the same phase: that is all the physics there  *)
(* is, no transformation matrix appears here.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Emit
VARIABLES tr, ele, stiff, mass
vars == <<tr, ele, stiff, mass>>
Tr == Scenarios[tr]
NN == Len(Tr.xy)
NE == Len(Tr.eles)

(* Gaussian integers *)
GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
GConj(a) == <<a[1], -a[2]>>
Turn(p) == CASE (p % 4) = 0 -> <<1, 0>> [] (p % 4) = 1 -> <<0, 1>>
             [] (p % 4) = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>

Refs == {n \in 1..NN : Tr.ref[n] + 1 = n}
Rank(n) == Cardinality({m \in Refs : m < n})          \* of a reference, from 0
Place == [n \in 1..NN |-> Rank(Tr.ref[n] + 1)]        \* reduced node of each node
NR == 2 * Cardinality(Refs)
Quarter(off) == Tr.q[1] * off[1] + Tr.q[2] * off[2]

(* the matrices of an element, whole numbers by the choice of materials      *)
Size(e) == Len(Tr.eles[e].conn)
X(e, a, c) == Tr.xy[Tr.eles[e].conn[a] + 1][c]
Dir(e) == <<X(e, 2, 1) - X(e, 1, 1), X(e, 2, 2) - X(e, 1, 2)>>
Sign(a, b) == IF a = b THEN 1 ELSE -1
SpringK(e, a, c, b, d) == Tr.eles[e].kap * Sign(a, b) * Dir(e)[c] * Dir(e)[d]
(* gradient of the shape function of vertex a, times twice the area          *)
Succ(a) == (a % 3) + 1
Grad(e, a, c) == LET p == Succ(a)  r == Succ(p)
                 IN  IF c = 1 THEN X(e, p, 2) - X(e, r, 2) ELSE X(e, r, 1) - X(e, p, 1)
TriK(e, a, c, b, d) ==
    LET t == Tr.eles[e].mat            \* <<c11, c12, c33>>
        o == 3 - c
    IN  Tr.eles[e].kap *
        IF c = d THEN t[1] * Grad(e, a, c) * Grad(e, b, c) + t[3] * Grad(e, a, o) * Grad(e, b, o)
        ELSE t[2] * Grad(e, a, c) * Grad(e, b, d) + t[3] * Grad(e, a, d) * Grad(e, b, c)
K(e, a, c, b, d) == IF Size(e) = 2 THEN SpringK(e, a, c, b, d) ELSE TriK(e, a, c, b, d)
M(e, a, c, b, d) == IF Size(e) = 2 \/ c # d THEN 0
                    ELSE Tr.eles[e].rho * (IF a = b THEN 2 ELSE 1)

Node(e, a) == Tr.eles[e].conn[a] + 1
(* force on the reference of node a for a unit motion of the reference of b   *)
Phase(e, a, b, move) ==
    LET off(n) == <<Tr.off[n][1] + move[1], Tr.off[n][2] + move[2]>>
    IN  GMul(GConj(Turn(Quarter(off(Node(e, a))))), Turn(Quarter(off(Node(e, b)))))
Pairs(e) == {<<a, c, b, d>> : a \in 1..Size(e), c \in 1..2, b \in 1..Size(e), d \in 1..2}
Row(e, a, c) == 2 * Place[Node(e, a)] + c
RECURSIVE SumOver(_, _)
SumOver(set, f) == IF set = {} THEN <<0, 0>>
                   ELSE LET x == CHOOSE y \in set : TRUE
                        IN  GAdd(f[x], SumOver(set \ {x}, f))
Added(mat, e, Of(_, _, _, _, _)) ==
    LET hits == [p \in Pairs(e) |-> LET ph == Phase(e, p[1], p[3], <<0, 0>>)
                                        k == Of(e, p[1], p[2], p[3], p[4])
                                    IN  <<k * ph[1], k * ph[2]>>]
        here == {Row(e, a, c) : a \in 1..Size(e), c \in 1..2}
    IN  [i \in 1..NR |-> IF i \notin here THEN mat[i] ELSE
           [j \in 1..NR |-> IF j \notin here THEN mat[i][j] ELSE
              GAdd(mat[i][j], SumOver({p \in Pairs(e) : Row(e, p[1], p[2]) = i
                                                     /\ Row(e, p[3], p[4]) = j}, hits))]]

Zero == [i \in 1..NR |-> [j \in 1..NR |-> <<0, 0>>]]
Init == tr \in 1..Len(Scenarios) /\ ele = 0 /\ stiff = Zero /\ mass = Zero
Next == /\ ele < NE
        /\ ele' = ele + 1
        /\ stiff' = Added(stiff, ele + 1, K)
        /\ mass' = Added(mass, ele + 1, M)
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Done == ele = NE

(* The drawing is one of a periodic structure.                               *)
Placed == ele = 0 => \A n \in 1..NN : LET r == Tr.ref[n] + 1 IN
    /\ Tr.ref[r] + 1 = r /\ Tr.off[r] = <<0, 0>>
    /\ \A c \in 1..2 : Tr.xy[n][c] = Tr.xy[r][c] + Tr.off[n][1] * Tr.cell[1][c]
                                                + Tr.off[n][2] * Tr.cell[2][c]
Hermitian == \A i, j \in 1..NR : /\ stiff[i][j] = GConj(stiff[j][i])
                                 /\ mass[i][j] = GConj(mass[j][i])
(* Which of its copies an element is drawn as makes no difference.            *)
Anywhere == ele > 0 => \A a, b \in 1..Size(ele) : \A m \in {<<1, 0>>, <<0, 1>>, <<-2, 3>>} :
    Phase(ele, a, b, m) = Phase(ele, a, b, <<0, 0>>)
(* A motion that is the same in every cell and at every node is not resisted, *)
(* and the triangles' mass follows it.                                        *)
Uniform(mat, i, c) == FoldLeft(GAdd, <<0, 0>>, [k \in 1..(NR \div 2) |-> mat[i][2 * (k - 1) + c]])
Drift == ((Tr.q[1] % 4) = 0 /\ (Tr.q[2] % 4) = 0) =>
    /\ \A i \in 1..NR : \A c \in 1..2 : Uniform(stiff, i, c) = <<0, 0>>
    /\ \A c \in 1..2 :
        FoldLeft(GAdd, <<0, 0>>, [k \in 1..(NR \div 2) |-> Uniform(mass, 2 * (k - 1) + c, c)])
          = <<FoldLeft(LAMBDA s, e : s + IF Len(e.conn) = 2 THEN 0 ELSE 12 * e.rho, 0,
                       SubSeq(Tr.eles, 1, ele)), 0>>
(* The forces for the wave of the scenario, and its energy, never negative.   *)
Times(mat, v) == [i \in 1..NR |-> FoldLeft(GAdd, <<0, 0>>, [j \in 1..NR |-> GMul(mat[i][j], v[j])])]
Work(mat) == LET f == Times(mat, Tr.wave)
             IN  FoldLeft(GAdd, <<0, 0>>, [i \in 1..NR |-> GMul(GConj(Tr.wave[i]), f[i])])
Energetic == Done => /\ Work(stiff)[1] >= 0 /\ Work(stiff)[2] = 0
                     /\ Work(mass)[1] >= 0 /\ Work(mass)[2] = 0
EmitDone == Done => Emit("lattice" \o ToString(Tr.id),
    [stiff |-> stiff, mass |-> mass, force |-> Times(stiff, Tr.wave), count |-> NR])
=============================================================================
