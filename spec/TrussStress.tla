------------------------------ MODULE TrussStress ----------------------------
(***************************************************************************)
(* C18.  Axial stresses of truss members, one member per step:             *)
(*   stress / E = (u_end - u_ini) . d / |d|^2,  d = x_end - x_ini          *)
(* as <<numerator, denominator>>.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Emit
VARIABLES tr, ele, stress
vars == <<tr, ele, stress>>
Tr == Scenarios[tr]
Strain(a, b, X, U) ==
    LET dx == X[b + 1][1] - X[a + 1][1]
        dy == X[b + 1][2] - X[a + 1][2]
    IN  <<(U[b + 1][1] - U[a + 1][1]) * dx + (U[b + 1][2] - U[a + 1][2]) * dy,
          dx * dx + dy * dy>>
Init == tr \in 1..Len(Scenarios) /\ ele = 1 /\ stress = <<>>
Next == /\ ele <= Len(Tr.conn)
        /\ stress' = Append(stress, Strain(Tr.conn[ele][1], Tr.conn[ele][2], Tr.nodes, Tr.u))
        /\ ele' = ele + 1
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Done == ele = Len(Tr.conn) + 1
(* direction of listing, rigid translation, infinitesimal rotation *)
Reversible == Done => \A e \in 1..Len(Tr.conn) :
    Strain(Tr.conn[e][2], Tr.conn[e][1], Tr.nodes, Tr.u) = stress[e]
Shifted == [n \in 1..Len(Tr.u) |-> <<Tr.u[n][1] + 5, Tr.u[n][2] - 3>>]
Turned == [n \in 1..Len(Tr.u) |-> <<Tr.u[n][1] - 2 * Tr.nodes[n][2],
                                    Tr.u[n][2] + 2 * Tr.nodes[n][1]>>]
RigidFree == Done => \A e \in 1..Len(Tr.conn) :
    /\ Strain(Tr.conn[e][1], Tr.conn[e][2], Tr.nodes, Shifted) = stress[e]
    /\ Strain(Tr.conn[e][1], Tr.conn[e][2], Tr.nodes, Turned) = stress[e]
(* a uniform dilation stretches every member by the same amount *)
Tension == Done => \A e \in 1..Len(Tr.conn) :
    LET z == Strain(Tr.conn[e][1], Tr.conn[e][2], Tr.nodes, Tr.nodes) IN z[1] = z[2]
EmitDone == Done => Emit("truss" \o ToString(Tr.id), [stress |-> stress])
=============================================================================
