-------------------------------- MODULE Refine -------------------------------
(***************************************************************************)
(* C37.  Refinement of meshes.  A scenario is a mesh of one family with    *)
(* integer coordinates and a list of refinements:                          *)
(*   "split"   every element becomes 2, 4 or 8 of its kind                 *)
(*   "raise"   triangles and quadrilaterals get all their middle nodes     *)
(*   "edges"   4-node quadrilaterals become 8-node ones                    *)
(*   "fill"    8-node quadrilaterals get their centre                      *)
(* Each step of the machine performs one refinement.  New nodes belong to  *)
(* the set of their parents with weights, so elements that share an edge   *)
(* or a face share its middle.  `via` holds the motion of every node as a  *)
(* combination of the motions of the previous nodes: the field is the same.*)
(* The law (Galerkin): with P the combination, K_coarse = P' K_fine P and  *)
(* the same for the mass.  The machine proves it for the form it can       *)
(* compute exactly, and emits P for all.                                   *)
(***************************************************************************)
EXTENDS Rat, FiniteSets, FiniteSetsExt, Emit
VARIABLES tr, step, mesh, via
vars == <<tr, step, mesh, via>>
Tr == Scenarios[tr]

(* ---- local patterns: new nodes as sequences of <<corner, num, den>> ------- *)
Mid(a, b) == <<<<a, 1, 2>>, <<b, 1, 2>>>>
Ring(n) == [k \in 1..n |-> Mid(k, (k % n) + 1)]
Center4 == <<<<1, 1, 4>>, <<2, 1, 4>>, <<3, 1, 4>>, <<4, 1, 4>>>>
Serendip == <<<<1, -1, 4>>, <<2, -1, 4>>, <<3, -1, 4>>, <<4, -1, 4>>,
              <<5, 1, 2>>, <<6, 1, 2>>, <<7, 1, 2>>, <<8, 1, 2>>>>
TetEdges == <<<<1, 2>>, <<1, 3>>, <<1, 4>>, <<2, 3>>, <<2, 4>>, <<3, 4>>>>
(* the brick: corners at 0 or 2 of a grid of 27 points                        *)
HexAt == <<<<0, 0, 0>>, <<2, 0, 0>>, <<2, 2, 0>>, <<0, 2, 0>>,
           <<0, 0, 2>>, <<2, 0, 2>>, <<2, 2, 2>>, <<0, 2, 2>>>>
GridPts == [k \in 1..27 |-> <<(k - 1) % 3, ((k - 1) \div 3) % 3, (k - 1) \div 9>>]
IsCorner(p) == \A c \in 1..3 : p[c] # 1
HexMids == SelectSeq(GridPts, LAMBDA p : ~IsCorner(p))
ParentsOf(p) == SelectSeq([k \in 1..8 |-> k],
                          LAMBDA k : \A c \in 1..3 : p[c] = 1 \/ p[c] = HexAt[k][c])
HexNew == [m \in 1..19 |-> LET q == ParentsOf(HexMids[m])
                           IN  [k \in 1..Len(q) |-> <<q[k], 1, Len(q)>>]]
HexLocal(p) == IF IsCorner(p) THEN CHOOSE k \in 1..8 : HexAt[k] = p
               ELSE 8 + (CHOOSE m \in 1..19 : HexMids[m] = p)
HexKids == [n \in 1..8 |-> [k \in 1..8 |-> HexLocal(
              [c \in 1..3 |-> (HexAt[n][c] \div 2) + (HexAt[k][c] \div 2)])]]

New(fam, op) ==
    CASE fam = "tri3" -> Ring(3)
      [] fam = "quad4" /\ op = "edges" -> Ring(4)
      [] fam = "quad4" -> Append(Ring(4), Center4)
      [] fam = "quad8" -> <<Serendip>>
      [] fam = "tetra4" -> [k \in 1..6 |-> Mid(TetEdges[k][1], TetEdges[k][2])]
      [] fam = "hexa8" -> HexNew
      [] OTHER -> <<Mid(1, 2)>>                      \* members
Kids(fam, op) ==
    CASE fam = "tri3" /\ op = "split" -> <<<<1, 4, 6>>, <<4, 2, 5>>, <<6, 5, 3>>, <<4, 5, 6>>>>
      [] fam = "quad4" /\ op = "split" ->
            <<<<1, 5, 9, 8>>, <<5, 2, 6, 9>>, <<9, 6, 3, 7>>, <<8, 9, 7, 4>>>>
      [] fam = "tri3" -> <<[k \in 1..6 |-> k]>>
      [] fam = "quad4" /\ op = "edges" -> <<[k \in 1..8 |-> k]>>
      [] fam = "quad4" \/ fam = "quad8" -> <<[k \in 1..9 |-> k]>>
      [] fam = "tetra4" -> <<<<1, 5, 6, 7>>, <<5, 2, 8, 9>>, <<6, 8, 3, 10>>, <<7, 9, 10, 4>>,
                             <<6, 9, 7, 5>>, <<6, 9, 10, 7>>, <<6, 9, 8, 10>>, <<6, 9, 5, 8>>>>
      [] fam = "hexa8" -> HexKids
      [] OTHER -> <<<<1, 3>>, <<3, 2>>>>
Becomes(fam, op) == CASE op = "split" -> fam
                      [] fam = "tri3" -> "tri6"
                      [] op = "edges" -> "quad8"
                      [] OTHER -> "quad9"

(* ---- one refinement of a whole mesh --------------------------------------- *)
Global(conn, new) == {<<conn[p[1]], p[2], p[3]>> : p \in ToSet(new)}
News(m, op) == UNION {{Global(m.conn[e], New(m.fam, op)[k]) : k \in 1..Len(New(m.fam, op))} :
                      e \in 1..Len(m.conn)}
Dim(m) == Len(m.xy[1])
Weigh(m, parents, c) ==
    FoldSet(LAMBDA p, s : RAdd(s, RMul(<<m.xy[p[1]][c], 1>>, Norm(p[2], p[3]))), <<0, 1>>, parents)
Refined(m, op) ==
    LET set == News(m, op)
        list == SetToSeq(set)
        num == [s \in set |-> CHOOSE k \in 1..Len(list) : list[k] = s]
        local(e, k) == LET n == Len(m.conn[e])
                       IN  IF k <= n THEN m.conn[e][k]
                           ELSE Len(m.xy) + num[Global(m.conn[e], New(m.fam, op)[k - n])]
        kids == Kids(m.fam, op)
        total == Len(m.conn) * Len(kids)
        elem(j) == ((j - 1) \div Len(kids)) + 1
        kid(j) == kids[((j - 1) % Len(kids)) + 1]
    IN  [fam |-> Becomes(m.fam, op),
         xy |-> m.xy \o [k \in 1..Len(list) |->
                  [c \in 1..Dim(m) |-> LET w == Weigh(m, list[k], c) IN w[1] \div w[2]]],
         whole |-> \A k \in 1..Len(list) : \A c \in 1..Dim(m) : Weigh(m, list[k], c)[2] = 1,
         conn |-> [j \in 1..total |-> LET e == elem(j) q == kid(j)
                                      IN  [i \in 1..Len(q) |-> local(e, q[i])]],
         mat |-> [j \in 1..total |-> m.mat[elem(j)]]]

(* ---- the same field on the new nodes: <<node, component, rational>> ------- *)
Components(m) == IF m.fam = "beam" THEN 3 ELSE Dim(m)
OldRow(n, c) == <<<<n, c, <<1, 1>>>>>>
PlainRow(parents, c) == SetToSeq({<<p[1], c, Norm(p[2], p[3])>> : p \in parents})
(* middle of a beam: cubic across (turn left of d is t = (-dy, dx))           *)
BeamRow(m, parents, c) ==
    LET ends == SetToSortSeq({p[1] : p \in parents}, <)
        a == ends[1]  b == ends[2]
        dx == m.xy[b][1] - m.xy[a][1]  dy == m.xy[b][2] - m.xy[a][2]
        l2 == dx * dx + dy * dy
        t == IF c = 1 THEN -dy ELSE dx
    IN  IF c < 3
        THEN <<<<a, c, <<1, 2>>>>, <<b, c, <<1, 2>>>>,
               <<a, 3, Norm(t, 8)>>, <<b, 3, Norm(-t, 8)>>>>
        ELSE <<<<a, 3, <<-1, 4>>>>, <<b, 3, <<-1, 4>>>>,
               <<a, 1, Norm(3 * dy, 2 * l2)>>, <<b, 1, Norm(-3 * dy, 2 * l2)>>,
               <<a, 2, Norm(-3 * dx, 2 * l2)>>, <<b, 2, Norm(3 * dx, 2 * l2)>>>>
Carry(m, op) ==
    LET list == SetToSeq(News(m, op))
    IN  [n \in 1..Len(m.xy) |-> [c \in 1..Components(m) |-> OldRow(n, c)]] \o
        [k \in 1..Len(list) |-> [c \in 1..Components(m) |->
            IF m.fam = "beam" THEN BeamRow(m, list[k], c) ELSE PlainRow(list[k], c)]]

Init == /\ tr \in 1..Len(Scenarios) /\ step = 0 /\ via = <<>>
        /\ mesh = <<[fam |-> Scenarios[tr].fam, xy |-> Scenarios[tr].xy, whole |-> TRUE,
                     conn |-> Scenarios[tr].conn, mat |-> Scenarios[tr].mat]>>
Next == /\ step < Len(Tr.ops)
        /\ mesh' = Append(mesh, Refined(mesh[step + 1], Tr.ops[step + 1]))
        /\ via' = Append(via, Carry(mesh[step + 1], Tr.ops[step + 1]))
        /\ step' = step + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Done == step = Len(Tr.ops)

Now == mesh[step + 1]
Was == mesh[step]
(* coordinates stay whole numbers                                             *)
Whole == Now.whole
(* no two nodes at one place unless they were drawn so, none left unused      *)
Conforming == \A n \in 1..Len(Now.xy) : \E e \in 1..Len(Now.conn) : n \in ToSet(Now.conn[e])
Value(row, u) == FoldLeft(LAMBDA s, p : RAdd(s, RMul(p[3], u[p[1]][p[2]])), <<0, 1>>, row)
Moved(p, u) == [n \in 1..Len(p) |-> [c \in 1..Len(p[n]) |-> Value(p[n][c], u)]]
(* a motion without deformation, and a uniform strain, are carried as such    *)
Linear(m, g) == [n \in 1..Len(m.xy) |-> [c \in 1..Components(m) |->
    IF c > Dim(m) THEN <<g[1][2], 1>>              \* rotation of a rigid turn
    ELSE <<g[c][1] * m.xy[n][1] + g[c][2] * m.xy[n][2] +
           (IF Dim(m) = 3 THEN g[c][3] * m.xy[n][3] ELSE 0) + c, 1>>]]
Turned == <<<<0, -1, 2>>, <<1, 0, -3>>, <<-2, 3, 0>>>>
Strained == <<<<2, 1, 0>>, <<-1, 3, 2>>, <<1, 1, -1>>>>
Spin(m) == IF m.fam = "beam" THEN [n \in 1..Len(m.xy) |->
               <<<<-m.xy[n][2], 1>>, <<m.xy[n][1], 1>>, <<1, 1>>>>] ELSE Linear(m, Turned)
Reproduces == step > 0 =>
    /\ Moved(via[step], Spin(Was)) = Spin(Now)
    /\ Was.fam = "beam" \/ Moved(via[step], Linear(Was, Strained)) = Linear(Now, Strained)
(* sizes: twice the area, six times the volume, the vector of a member         *)
P(m, e, a, c) == m.xy[m.conn[e][a]][c]
Cross2(m, e, a, b, c) == (P(m, e, b, 1) - P(m, e, a, 1)) * (P(m, e, c, 2) - P(m, e, a, 2))
                       - (P(m, e, b, 2) - P(m, e, a, 2)) * (P(m, e, c, 1) - P(m, e, a, 1))
Edge3(m, e, a, b) == [c \in 1..3 |-> P(m, e, b, c) - P(m, e, a, c)]
Det3(x, y, z) == x[1] * (y[2] * z[3] - y[3] * z[2]) - x[2] * (y[1] * z[3] - y[3] * z[1])
               + x[3] * (y[1] * z[2] - y[2] * z[1])
SizeOf(m, e) ==
    CASE m.fam = "tri3" \/ m.fam = "tri6" -> Cross2(m, e, 1, 2, 3)
      [] m.fam = "tetra4" -> Det3(Edge3(m, e, 1, 2), Edge3(m, e, 1, 3), Edge3(m, e, 1, 4))
      [] m.fam = "hexa8" -> Det3(Edge3(m, e, 1, 2), Edge3(m, e, 1, 4), Edge3(m, e, 1, 5))
      [] m.fam \in {"truss", "beam"} -> 1
      [] OTHER -> Cross2(m, e, 1, 2, 3) + Cross2(m, e, 1, 3, 4)
Total(m) == FoldLeft(LAMBDA s, e : s + SizeOf(m, e), 0, [e \in 1..Len(m.conn) |-> e])
Covers == /\ \A e \in 1..Len(Now.conn) : SizeOf(Now, e) > 0
          /\ (step > 0 /\ Now.fam \notin {"truss", "beam"}) => Total(Now) = Total(Was)
(* The law itself, for the form int |grad u|^2 on 3-node triangles and the    *)
(* elongation work of trusses (times the cube of the first member's length).  *)
Sq(x) == RMul(x, x)
Slope(m, e, u, c) == \* twice the area times the derivative of the first component
    LET o == 3 - c  s == IF c = 1 THEN 1 ELSE -1
        b(i, j, k) == RMul(<<s * (P(m, e, j, o) - P(m, e, k, o)), 1>>, u[m.conn[e][i]][1])
    IN  RAdd(b(1, 2, 3), RAdd(b(2, 3, 1), b(3, 1, 2)))
Dirichlet(m, first, count, u) == \* of `count` elements, whose areas are the same
    LET list == [k \in 1..count |-> first + k - 1]
    IN  RMul(FoldLeft(LAMBDA s, e : RAdd(s, RAdd(Sq(Slope(m, e, u, 1)), Sq(Slope(m, e, u, 2)))),
                      <<0, 1>>, list), Norm(1, 2 * SizeOf(m, first)))
Quarters == (Was.fam = "tri3" /\ Now.fam = "tri3") => \A e \in 1..Len(Was.conn) : \A k \in 1..4 :
    4 * SizeOf(Now, 4 * (e - 1) + k) = SizeOf(Was, e)
Stretch(m, e, u) == FoldLeft(LAMBDA s, c : RAdd(s, RMul(<<P(m, e, 2, c) - P(m, e, 1, c), 1>>,
    RSub(u[m.conn[e][2]][c], u[m.conn[e][1]][c]))), <<0, 1>>, <<1, 2>>)
Elongation(m, e, kids, u) == \* of the pieces of member e of the previous mesh
    FoldLeft(LAMBDA s, k : RAdd(s, RMul(<<kids * kids * kids, 1>>,
        Sq(Stretch(m, (e - 1) * kids + k, u)))), <<0, 1>>, [k \in 1..kids |-> k])
Field == [n \in 1..Len(Was.xy) |-> [c \in 1..Components(Was) |->
              <<((7 * n * n + 3 * c * n + Tr.id) % 11) - 5, 1>>]]
Kept == step > 0 =>
    LET u == Field  v == Moved(via[step], Field)
    IN  CASE Was.fam = "tri3" /\ Now.fam = "tri3" -> Quarters /\ \A e \in 1..Len(Was.conn) :
                Dirichlet(Was, e, 1, u) = Dirichlet(Now, 4 * (e - 1) + 1, 4, v)
          [] Was.fam = "truss" -> \A e \in 1..Len(Was.conn) :
                Elongation(Was, e, 1, u) = Elongation(Now, e, 2, v)
          [] OTHER -> TRUE
EmitDone == Done => Emit("refine" \o ToString(Tr.id), [mesh |-> mesh, via |-> via])
=============================================================================
