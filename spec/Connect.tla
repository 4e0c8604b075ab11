------------------------------- MODULE Connect -------------------------------
(***************************************************************************)
(* C02.  Building the assembly operator, one element per step, in any      *)
(* order of elements; explored for every constraint table on NN nodes with *)
(* ND components and every list of NE two-node elements.                   *)
(***************************************************************************)
EXTENDS Pipeline, Emit

CONSTANTS NN, ND, NE
VARIABLES cons, eles, done, assem
vars == <<cons, eles, done, assem>>

Nums == NumberTable(cons)
Empty == <<>>

Init == /\ cons \in [1..NN -> [1..ND -> {-1, 0}]]
        /\ eles \in [1..NE -> {c \in (0..NN-1) \X (0..NN-1) : c[1] # c[2]}]
        /\ done = {}
        /\ assem = [e \in 1..NE |-> Empty]

ConnectElement(e) ==
    /\ e \notin done
    /\ assem' = [assem EXCEPT ![e] = ConnRow(eles[e], Nums[1])]
    /\ done' = done \cup {e}
    /\ UNCHANGED <<cons, eles>>

Next == \E e \in 1..NE : ConnectElement(e)
Spec == Init /\ [][Next]_vars
Done == done = 1..NE

(* an element's row lists its own nodes' equations and nothing else *)
OwnRow == \A e \in done : \A i \in 1..2 : \A c \in 1..ND :
             assem[e][(i - 1) * ND + c] = Nums[1][eles[e][i] + 1][c]
(* so it does not matter when, nor after which elements, it was visited *)
Independent == \A e, f \in done : eles[e] = eles[f] => assem[e] = assem[f]
Untouched == \A e \in (1..NE) \ done : assem[e] = Empty
EmitDone == Done => EmitLine("assem", [cons |-> cons, eles |-> eles,
                                       assem |-> assem, neq |-> Nums[2]])
=============================================================================
