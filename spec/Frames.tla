-------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* C29.  Frames and continuous beams with a manufactured solution.         *)
(* A scenario is a model of beams without (type 7) and with (type 8) axial *)
(* deformation whose nodes have the displacements u = (ux, uy, rotation).  *)
(* The machine numbers the three components of every node, then visits one *)
(* member per step and hands its end nodes the end forces that hold it in  *)
(* the displaced shape:                                                    *)
(*   axial force      (E A / L^3) * ax           (type 8 only)             *)
(*   shear force      (E I / L^5) * sh                                     *)
(*   end moment       (E I / L^3) * mo                                     *)
(* with d the vector along the member, t = (-dy, dx), L^2 = d.d.           *)
(* The loads of the model are the sums of what a node has received.        *)
(***************************************************************************)
EXTENDS Pipeline, Emit
VARIABLES tr, step, inbox, eqtab, rows
vars == <<tr, step, inbox, eqtab, rows>>
Tr == Scenarios[tr]
NodeOf(e, a) == Tr.conn[e][a] + 1
D(e, v) == Tr.nodes[NodeOf(e, 2)][v] - Tr.nodes[NodeOf(e, 1)][v]
Du(e, v) == Tr.u[NodeOf(e, 2)][v] - Tr.u[NodeOf(e, 1)][v]
Rot(e, a) == Tr.u[NodeOf(e, a)][3]
Sq(e) == D(e, 1) * D(e, 1) + D(e, 2) * D(e, 2)
Stretch(e) == D(e, 1) * Du(e, 1) + D(e, 2) * Du(e, 2)
Sway(e) == D(e, 1) * Du(e, 2) - D(e, 2) * Du(e, 1)
Sign(a) == IF a = 1 THEN -1 ELSE 1
Ax(e, a) == IF Tr.types[e] = 7 THEN <<0, 0>>
            ELSE <<Sign(a) * Stretch(e) * D(e, 1), Sign(a) * Stretch(e) * D(e, 2)>>
(* shear at the second end *)
Shear(e) == 12 * Sway(e) - 6 * Sq(e) * (Rot(e, 1) + Rot(e, 2))
Sh(e, a) == <<-Sign(a) * Shear(e) * D(e, 2), Sign(a) * Shear(e) * D(e, 1)>>
Mo(e, a) == -6 * Sway(e) + Sq(e) * (2 * (Rot(e, 1) + Rot(e, 2)) + 2 * Rot(e, a))

Init == /\ tr \in 1..Len(Scenarios)
        /\ step = 1 /\ inbox = <<>> /\ eqtab = <<>> /\ rows = <<>>
Number == /\ step = 1
          /\ eqtab' = NumberTable(Tr.cons)
          /\ inbox' = [n \in 1..Len(Tr.nodes) |-> <<>>]
          /\ step' = 2
          /\ UNCHANGED <<tr, rows>>
Hold == /\ step >= 2 /\ step - 1 <= Len(Tr.conn)
        /\ LET e == step - 1
               give(a) == [e |-> e - 1, l2 |-> Sq(e), ax |-> Ax(e, a),
                           sh |-> Sh(e, a), mo |-> Mo(e, a)]
           IN  /\ inbox' = [n \in 1..Len(Tr.nodes) |->
                     CASE n = NodeOf(e, 1) -> Append(inbox[n], give(1))
                       [] n = NodeOf(e, 2) -> Append(inbox[n], give(2))
                       [] OTHER -> inbox[n]]
               /\ rows' = Append(rows, ConnRow(Tr.conn[e], eqtab[1]))
        /\ step' = step + 1
        /\ UNCHANGED <<tr, eqtab>>
Next == Number \/ Hold
Spec == Init /\ [][Next]_vars
Done == step = Len(Tr.conn) + 2

Supported == step = 2 => \A n \in 1..Len(Tr.nodes) : \A c \in 1..3 :
    Tr.cons[n][c] = -1 => Tr.u[n][c] = 0
Sound == step = 2 => \A e \in 1..Len(Tr.conn) : Sq(e) > 0
Numbered == step = 2 => eqtab[2] = FreeCount(Tr.cons)
(* end forces of a member are in equilibrium (moments about the first node;   *)
(* E A and E I are independent, so both parts balance by themselves)          *)
Balanced == step > 2 => LET e == step - 2 IN
    /\ \A v \in 1..2 : Ax(e, 1)[v] + Ax(e, 2)[v] = 0 /\ Sh(e, 1)[v] + Sh(e, 2)[v] = 0
    /\ D(e, 1) * Ax(e, 2)[2] - D(e, 2) * Ax(e, 2)[1] = 0
    /\ D(e, 1) * Sh(e, 2)[2] - D(e, 2) * Sh(e, 2)[1] + Sq(e) * (Mo(e, 1) + Mo(e, 2)) = 0
(* a member that moves as a rigid body needs no forces: the turned end point   *)
(* has moved by rotation times t, that is sway = L^2 * rotation                *)
Rigid == step > 2 => LET e == step - 2 IN
    (Stretch(e) = 0 /\ Rot(e, 1) = Rot(e, 2) /\ Sway(e) = Sq(e) * Rot(e, 1)) =>
       \A a \in 1..2 : Ax(e, a) = <<0, 0>> /\ Sh(e, a) = <<0, 0>> /\ Mo(e, a) = 0
(* strain energy (work of the end forces) is not negative; separately for the  *)
(* axial and the bending part                                                  *)
Energy == step > 2 => LET e == step - 2
                          w == Sway(e) * Shear(e) + Sq(e) * (Mo(e, 1) * Rot(e, 1) + Mo(e, 2) * Rot(e, 2))
                      IN  w >= 0
EmitDone == Done => Emit("fr" \o ToString(Tr.id),
    [inbox |-> inbox, eqn |-> eqtab[1], neq |-> eqtab[2], rows |-> rows])
=============================================================================
