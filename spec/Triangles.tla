------------------------------ MODULE Triangles ------------------------------
(***************************************************************************)
(* C22.  The triangulation used for plotting, recorded from the code and   *)
(* judged here, one element per step.  A trace lists the mesh (integer     *)
(* coordinates) and the triangles; owner[k] is the element the k-th        *)
(* triangle lies on (0 if on none).  For each element the machine takes    *)
(* its triangles and requires                                              *)
(*   own        they join nodes of the element                             *)
(*   positive   each is counter-clockwise                                  *)
(*   border     their oriented edges add up to the border of the element,  *)
(*              node by node: no gap, no overlap, and sides shared with a  *)
(*              neighbour are split in the same way                        *)
(*   nodes      together they use every node                               *)
(*   area       they have the area of the element                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Emit
VARIABLES tr, ele, bad
vars == <<tr, ele, bad>>
Tr == Scenarios[tr]
NE == Len(Tr.conn)
Border(c) == CASE Len(c) = 3 -> <<c[1], c[2], c[3]>>
               [] Len(c) = 4 -> <<c[1], c[2], c[3], c[4]>>
               [] Len(c) = 6 -> <<c[1], c[4], c[2], c[5], c[3], c[6]>>
               [] Len(c) = 9 -> <<c[1], c[5], c[2], c[6], c[3], c[7], c[4], c[8]>>
X(n) == Tr.nodes[n + 1][1]
Y(n) == Tr.nodes[n + 1][2]
Area2(t) == FoldLeft(LAMBDA s, a : LET b == t[(a % Len(t)) + 1] IN
                        s + X(t[a]) * Y(b) - X(b) * Y(t[a]), 0, [a \in 1..Len(t) |-> a])
EdgesOf(t) == {<<t[a], t[(a % Len(t)) + 1]>> : a \in 1..Len(t)}
Judge(e) ==
    LET c == Tr.conn[e]
        mine == {k \in 1..Len(Tr.tris) : Tr.owner[k] = e}
        tri(k) == Tr.tris[k]
        all == UNION {EdgesOf(tri(k)) : k \in mine}
        times(g) == Cardinality({k \in mine : g \in EdgesOf(tri(k))})
        net == {g \in all : times(g) > (IF <<g[2], g[1]>> \in all THEN times(<<g[2], g[1]>>) ELSE 0)}
        nodes == {c[a] : a \in 1..Len(c)}
        used == UNION {{tri(k)[a] : a \in 1..3} : k \in mine}
    IN  (IF used \subseteq nodes THEN {} ELSE {"own"})
        \cup (IF nodes \subseteq used THEN {} ELSE {"nodes"})
        \cup (IF \A k \in mine : Area2(tri(k)) > 0 THEN {} ELSE {"positive"})
        \cup (IF net = EdgesOf(Border(c)) /\ \A g \in all : times(g) = 1 THEN {} ELSE {"border"})
        \cup (IF FoldSet(LAMBDA k, s : s + Area2(tri(k)), 0, mine) = Area2(Border(c))
              THEN {} ELSE {"area"})
Init == tr \in 1..Len(Scenarios) /\ ele = 0 /\ bad = {}
Start == /\ ele = 0
         /\ bad' = IF \E k \in 1..Len(Tr.owner) : Tr.owner[k] \notin 1..NE THEN {"foreign"} ELSE {}
         /\ ele' = 1
         /\ UNCHANGED tr
Next == Start \/ (/\ ele >= 1 /\ ele <= NE
                  /\ bad' = bad \cup Judge(ele)
                  /\ ele' = ele + 1
                  /\ UNCHANGED tr)
Spec == Init /\ [][Next]_vars
EmitDone == ele = NE + 1 => EmitLine("verdict", [id |-> Tr.id, bad |-> SetToSeq(bad)])
=============================================================================
