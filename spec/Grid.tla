--------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* C20.  The structured mesh of a rectangle, laid one row of nodes per     *)
(* step and then one row of elements per step.  Coordinates are kept as    *)
(* integers: x = length * X / (2 nx), y = height * Y / (2 ny).  Large      *)
(* meshes (Big) are handed over row by row instead of being collected.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Emit
CONSTANT Reach           \* all nx, ny in 1..Reach, and the scenarios' sizes
VARIABLES nx, ny, stp, nds, els
vars == <<nx, ny, stp, nds, els>>
Init == /\ \E p \in ((1..Reach) \X (1..Reach))
              \cup {<<Scenarios[k].nx, Scenarios[k].ny>> : k \in 1..Len(Scenarios)} :
              nx = p[1] /\ ny = p[2]
        /\ stp = 0 /\ nds = <<>> /\ els = <<>>
Big == nx * ny > 9000
Keep(old) == IF Big THEN <<>> ELSE old
NodeRow == /\ stp <= ny
           /\ nds' = Keep(nds) \o [i \in 1..nx + 1 |-> <<2 * (i - 1) - nx, 2 * stp - ny>>]
           /\ stp' = stp + 1
           /\ UNCHANGED <<nx, ny, els>>
At(i, j) == j * (nx + 1) + i        \* zero-based node number
ElementRow == /\ stp > ny /\ stp <= 2 * ny
              /\ LET j == stp - ny - 1 IN
                 els' = Keep(els) \o [i \in 1..nx |->
                    <<At(i - 1, j), At(i, j), At(i, j + 1), At(i - 1, j + 1)>>]
              /\ stp' = stp + 1
              /\ UNCHANGED <<nx, ny, nds>>
Next == NodeRow \/ ElementRow
Spec == Init /\ [][Next]_vars
Done == stp = 2 * ny + 1 /\ ~Big

P(n) == nds[n + 1]
Cross(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Small == nx * ny <= 36
Counts == Done => Len(nds) = (nx + 1) * (ny + 1) /\ Len(els) = nx * ny
(* counter-clockwise rectangles of equal area that fill the domain *)
Tiles == Done => \A e \in 1..Len(els) : LET q == els[e] IN
    /\ \A a \in 1..4 : Cross(P(q[a]), P(q[(a % 4) + 1]), P(q[((a + 1) % 4) + 1])) = 4
(* every node is there once and is used; the corners are the rectangle's      *)
Fills == Done /\ Small =>
    /\ Cardinality({nds[k] : k \in 1..Len(nds)}) = Len(nds)
    /\ UNION {{els[e][a] : a \in 1..4} : e \in 1..Len(els)} = 0..Len(nds) - 1
    /\ nds[1] = <<0 - nx, 0 - ny>> /\ nds[Len(nds)] = <<nx, ny>>
(* oriented edges: each occurs once; its reverse occurs unless on the border   *)
Edges == UNION {{<<els[e][a], els[e][(a % 4) + 1]>> : a \in 1..4} : e \in 1..Len(els)}
Conforming == Done /\ Small =>
    /\ Cardinality(Edges) = 4 * Len(els)
    /\ \A g \in Edges : \/ <<g[2], g[1]>> \in Edges
                        \/ \E v \in 1..2 : /\ P(g[1])[v] = P(g[2])[v]
                                           /\ P(g[1])[v] \in {<<nx, ny>>[v], 0 - <<nx, ny>>[v]}
EmitDone == Done => Emit("grid_" \o ToString(nx) \o "_" \o ToString(ny),
                         [nodes |-> nds, els |-> els])
EmitRow == Big /\ stp > 0 => EmitLine("gridrow", [nx |-> nx, ny |-> ny, stp |-> stp,
                  row |-> IF stp <= ny + 1 THEN nds ELSE els])
=============================================================================
