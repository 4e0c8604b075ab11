-------------------------------- MODULE Loads --------------------------------
(***************************************************************************)
(* C04.  The right-hand side as a machine that applies one row of the load *)
(* table per step, in any order.                                           *)
(***************************************************************************)
EXTENDS Pipeline, Emit
CONSTANTS NN, ND, NR, Values
VARIABLES cons, loads, applied, rhs
vars == <<cons, loads, applied, rhs>>

Nums == NumberTable(cons)
Init == /\ cons \in [1..NN -> [1..ND -> {-1, 0}]]
        /\ loads \in [1..NR -> {<<n>> \o v : n \in 0..NN-1, v \in [1..ND -> Values]}]
        /\ applied = {}
        /\ rhs = [i \in 1..NumberTable(cons)[2] |-> 0]
Apply(r) == /\ r \notin applied
            /\ rhs' = AddLoad(rhs, loads[r], Nums[1])
            /\ applied' = applied \cup {r}
            /\ UNCHANGED <<cons, loads>>
Next == \E r \in 1..NR : Apply(r)
Spec == Init /\ [][Next]_vars
Done == applied = 1..NR

SumOfRows ==
    \A n \in 1..NN : \A c \in 1..ND :
        cons[n][c] = 0 =>
          rhs[Nums[1][n][c] + 1] =
            Sum([r \in 1..NR |-> IF r \in applied /\ loads[r][1] = n - 1
                                 THEN loads[r][c + 1] ELSE 0])
(* the total applied force on free components is preserved *)
EmitDone == Done => EmitLine("rhs", [cons |-> cons, loads |-> loads, rhs |-> rhs])
=============================================================================
