------------------------------ MODULE Catalogue ------------------------------
(***************************************************************************)
(* C31.  What a type code stands for.  The machine looks a code up in the  *)
(* documented catalogue and follows it through the three places that use   *)
(* it: the table of element sizes, the choice of the element routine and   *)
(* the row of the assembly operator.                                       *)
(***************************************************************************)
EXTENDS Pipeline, Emit
CONSTANT Below, Highest
VARIABLES code, stage, size, routine, row
vars == <<code, stage, size, routine, row>>
Known == 1..8
Family == <<"quad4", "tri6", "tri3", "quad9", "spring", "truss", "beam", "frame">>
Routine == [quad4 |-> "elast_quad4", tri6 |-> "elast_tri6", tri3 |-> "elast_tri3",
            quad9 |-> "elast_quad9", spring |-> "spring", truss |-> "truss2D",
            beam |-> "beam2DU", frame |-> "beam2D"]
Corners == [quad4 |-> 4, tri6 |-> 3, tri3 |-> 3, quad9 |-> 4,
            spring |-> 2, truss |-> 2, beam |-> 2, frame |-> 2]
(* nodes from the family: corners, one per side, centre                       *)
Nodes(f) == Corners[f] + (IF f \in {"tri6", "quad9"} THEN Corners[f] ELSE 0)
                       + (IF f = "quad9" THEN 1 ELSE 0)
PerNode(f) == IF f \in {"beam", "frame"} THEN 3 ELSE 2
(* integration points with which the families are integrated                  *)
Points == [quad4 |-> 2 * 2, quad9 |-> 3 * 3, tri3 |-> 3, tri6 |-> 7]
Refuse == "refused"
Init == code \in (-Below)..Highest /\ stage = "size" /\ size = <<>> /\ routine = "" /\ row = <<>>
Size == /\ stage = "size"
        /\ size' = IF code \notin Known THEN <<Refuse>>
                   ELSE LET f == Family[code] IN
                        <<Nodes(f) * PerNode(f), Nodes(f),
                          IF f \in DOMAIN Points THEN Points[f] ELSE 0>>
        /\ stage' = "routine"
        /\ UNCHANGED <<code, routine, row>>
Choose == /\ stage = "routine"
          /\ routine' = IF code \in Known THEN Routine[Family[code]] ELSE Refuse
          /\ stage' = "row"
          /\ UNCHANGED <<code, size, row>>
(* every node free, nodes taken in reverse order                               *)
Row == /\ stage = "row"
       /\ row' = IF code \notin Known THEN <<Refuse>>
                 ELSE LET f == Family[code]
                          eqn == NumberTable([n \in 1..Nodes(f) |-> [c \in 1..PerNode(f) |-> 0]])[1]
                      IN  ConnRow([n \in 1..Nodes(f) |-> Nodes(f) - n], eqn)
       /\ stage' = "done"
       /\ UNCHANGED <<code, size, routine>>
Next == Size \/ Choose \/ Row
Spec == Init /\ [][Next]_vars
Done == stage = "done"
(* the three places agree with each other and with the assembly specification  *)
Agree == Done => /\ (size = <<Refuse>>) = (code \notin Known)
                 /\ (routine = Refuse) = (code \notin Known)
                 /\ code \in Known => /\ size[1] = Len(row) /\ size[1] = TypeNdof(code)
                                      /\ size[2] = TypeNodes[code]
Distinct == \A a, b \in Known : a # b => Routine[Family[a]] # Routine[Family[b]]
EmitDone == Done => EmitLine("code", [code |-> code, size |-> size, routine |-> routine,
                                      row |-> row, known |-> code \in Known,
                                      per |-> IF code \in Known THEN PerNode(Family[code]) ELSE 2])
=============================================================================
