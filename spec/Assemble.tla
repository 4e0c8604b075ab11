------------------------------ MODULE Assemble ------------------------------
(***************************************************************************)
(* C03.  Assembly of the global matrices, one element per step and in any  *)
(* order, for every constraint table on NN nodes (ND components) and every *)
(* choice of NE elements (pairs of distinct nodes and a material).  The    *)
(* local matrices are unsymmetric and carry a distinct weight per element  *)
(* material and per local pair, so two different sums never coincide.      *)
(***************************************************************************)
EXTENDS Pipeline, Emit

CONSTANTS NN, ND, NE
VARIABLES cons, eles, done, K, M
vars == <<cons, eles, done, K, M>>

Size == 2 * ND
(* material 1 and 2 *)
LocK(mat) == [i \in 1..Size |-> [j \in 1..Size |-> mat * (100 * i + 7 * j * j)]]
LocM(mat) == [i \in 1..Size |-> [j \in 1..Size |-> 3 * i + 50 * j + mat]]

Nums == NumberTable(cons)
Neq == Nums[2]
Dme(e) == ConnRow(eles[e].conn, Nums[1])

ElementChoices == {[conn |-> <<a, b>>, mat |-> m] : a \in 0..NN-1, b \in 0..NN-1, m \in 1..2}

Init == /\ cons \in {c \in [1..NN -> [1..ND -> {-1, 0}]] : FreeCount(c) > 0}
        /\ eles \in [1..NE -> {ch \in ElementChoices : ch.conn[1] # ch.conn[2]}]
        /\ done = {}
        /\ K = ZeroMat(Neq)
        /\ M = ZeroMat(Neq)

AssembleElement(e) ==
    /\ e \notin done
    /\ K' = AddElement(K, Dme(e), LocK(eles[e].mat))
    /\ M' = AddElement(M, Dme(e), LocM(eles[e].mat))
    /\ done' = done \cup {e}
    /\ UNCHANGED <<cons, eles>>

Next == \E e \in 1..NE : AssembleElement(e)
Spec == Init /\ [][Next]_vars
Done == done = 1..NE

(* The definition of the property: sum over elements and local pairs.  It   *)
(* is symmetric in the elements, hence independent of their order.          *)
Total(loc(_), I, J) ==
    Sum(SetToSeq({0}) \o
        FlattenSeq([e \in 1..NE |->
           IF e \notin done THEN <<>>
           ELSE FlattenSeq([i \in 1..Size |->
                  [j \in 1..Size |->
                     IF Dme(e)[i] = I - 1 /\ Dme(e)[j] = J - 1
                     THEN loc(eles[e].mat)[i][j] ELSE 0]])]))
SumOfElements == \A I, J \in 1..Neq : /\ K[I][J] = Total(LocK, I, J)
                                      /\ M[I][J] = Total(LocM, I, J)
EmitDone == Done => EmitLine("global", [cons |-> cons, eles |-> eles,
                                        K |-> K, M |-> M])
=============================================================================
