------------------------------- MODULE Gather --------------------------------
(* C03 for the library's own elements: which routine serves each type and    *)
(* where each local pair goes.  One scenario is a mesh; every element is one *)
(* step; the emitted gather list is replayed with the local matrices the     *)
(* routines return when they are called on their own.                        *)
EXTENDS Pipeline, Emit
VARIABLES t, e, list
vars == <<t, e, list>>
Tr == Scenarios[t]
Routine == <<"elast_quad4", "elast_tri6", "elast_tri3", "elast_quad9",
             "spring", "truss2D", "beam2DU", "beam2D">>
Nums == NumberTable(Tr.cons)
Init == t \in 1..Len(Scenarios) /\ e = 1 /\ list = <<>>
Step == /\ e <= Len(Tr.eles)
        /\ LET ele == Tr.eles[e]
           IN  list' = Append(list,
                 [routine |-> Routine[ele[1]], mat |-> ele[2],
                  nodes |-> SubSeq(ele, 3, Len(ele)),
                  dme |-> ConnRow(SubSeq(ele, 3, Len(ele)), Nums[1])])
        /\ e' = e + 1
        /\ UNCHANGED t
Spec == Init /\ [][Step]_vars
EmitDone == e = Len(Tr.eles) + 1 =>
     Emit("gather" \o ToString(Tr.id), [id |-> Tr.id, neq |-> Nums[2], list |-> list])
=============================================================================
