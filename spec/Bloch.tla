-------------------------------- MODULE Bloch --------------------------------
(***************************************************************************)
(* C23.  Reduction of a periodic cell.  A scenario gives the nodes'        *)
(* integer coordinates, the pairs (image node, reference node), the        *)
(* degrees of freedom of every node (any numbering of all of them) and the *)
(* wave numbers <<p1, p2, ..>> in units of 2 pi / 12, so that phases are   *)
(* twelfths of a turn.  The machine visits one degree of freedom per step, *)
(* first giving the retained ones their number and then forming one row of *)
(* the transformation per step.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Emit
VARIABLES tr, dof, count, num, rows
vars == <<tr, dof, count, num, rows>>
Tr == Scenarios[tr]
ND == Tr.ndofs
NodeOfDof(d) == CHOOSE n \in 1..Len(Tr.dofs) : \E c \in 1..Len(Tr.dofs[n]) : Tr.dofs[n][c] = d
CompOfDof(n, d) == CHOOSE c \in 1..Len(Tr.dofs[n]) : Tr.dofs[n][c] = d
Images == {Tr.pairs[k][1] + 1 : k \in 1..Len(Tr.pairs)}
RefNode(n) == Tr.pairs[CHOOSE k \in 1..Len(Tr.pairs) : Tr.pairs[k][1] + 1 = n][2] + 1
IsImage(d) == NodeOfDof(d) \in Images
RefDof(d) == LET n == NodeOfDof(d) IN Tr.dofs[RefNode(n)][CompOfDof(n, d)]
RECURSIVE Dot(_, _)
Dot(p, x) == IF p = <<>> THEN 0 ELSE Head(p) * Head(x) + Dot(Tail(p), Tail(x))
Phase(d) == LET n == NodeOfDof(d)  r == RefNode(n)
                x == Tr.xy[n]  y == Tr.xy[r]
            IN  Dot(Tr.wave, [k \in 1..Len(x) |-> x[k] - y[k]]) % 12

Init == tr \in 1..Len(Scenarios) /\ dof = 0 /\ count = 0 /\ num = <<>> /\ rows = <<>>
(* pass 1: retained degrees of freedom are counted in order; images wait (-1)  *)
Count == /\ dof < ND
         /\ IF IsImage(dof) THEN num' = Append(num, -1) /\ count' = count
            ELSE num' = Append(num, count) /\ count' = count + 1
         /\ dof' = dof + 1
         /\ UNCHANGED <<tr, rows>>
(* pass 2: an image takes the number of its reference and its phase            *)
Tie == /\ dof >= ND /\ dof < 2 * ND
       /\ LET d == dof - ND
              ref == IF IsImage(d) THEN RefDof(d) ELSE d
          IN  /\ num' = [num EXCEPT ![d + 1] = num[ref + 1]]
              /\ rows' = Append(rows, <<num[ref + 1], IF IsImage(d) THEN Phase(d) ELSE 0>>)
       /\ dof' = dof + 1
       /\ UNCHANGED <<tr, count>>
Next == Count \/ Tie
Spec == Init /\ [][Next]_vars
Done == dof = 2 * ND

NoGaps == Done => /\ {num[k] : k \in 1..ND} = 0..count - 1
                  /\ count = ND - Cardinality({d \in 0..ND - 1 : IsImage(d)})
Ordered == Done => \A a, b \in {d \in 0..ND - 1 : ~IsImage(d)} : a < b => num[a + 1] < num[b + 1]
Tied == Done => \A d \in {x \in 0..ND - 1 : IsImage(x)} : num[d + 1] = num[RefDof(d) + 1]
EmitDone == Done => Emit("bloch" \o ToString(Tr.id), [num |-> num, rows |-> rows, count |-> count])
=============================================================================
